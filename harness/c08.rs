//! C08: a clause keeps the stated disjunction when it is normalized.
use super::base::*;
use super::models::*;
use super::terms::*;
use super::terms::T::*;
use crate::kernel::clause::Clause;
use crate::kernel::literal::Literal;
use crate::kernel::local_context::LocalContext;
use crate::kernel::symbol::Symbol;
use crate::kernel::term_normalization as norm;
use std::cmp::Ordering::*;

type L = (bool, T, T);
fn view(x: &Literal) -> L {
    (x.positive, read(&x.left), read(&x.right))
}
fn make(x: &L) -> Literal {
    Literal { positive: x.0, left: build(&x.1), right: build(&x.2) }
}
fn views(v: &[Literal]) -> Vec<L> {
    v.iter().map(view).collect()
}
fn types_of(c: &LocalContext) -> Vec<Option<T>> {
    (0..c.len()).map(|i| c.get_var_type(i).map(read)).collect()
}
fn context(types: &[T]) -> LocalContext {
    LocalContext::from_types(types.iter().map(build).collect())
}
fn ren(t: &T, h: &[u16]) -> T {
    map_leaves(t, 0, &mut |a, _| match a {
        F(i) => F(h.get(*i as usize).copied().unwrap_or(60000)),
        _ => a.clone(),
    })
}
fn lit_ren(x: &L, h: &[u16]) -> L {
    (x.0, ren(&x.1, h), ren(&x.2, h))
}
fn lit_vars(x: &L) -> Vec<u16> {
    let mut v = free_vars(&x.1);
    v.extend(free_vars(&x.2));
    v
}
const MODELS: u64 = 6;
/// The truth of a literal in each of a few models, variable k standing for variable h[k].
fn truths(x: &L, salt: u64, h: &[u16]) -> Result<Vec<bool>, String> {
    (0..MODELS)
        .map(|s| {
            let mut m = model(salt + s);
            m.vars = h.to_vec();
            let (l, lt) = m.eval(&x.1, &mut vec![])?;
            let (r, rt) = m.eval(&x.2, &mut vec![])?;
            if lt != rt {
                return Err(format!("sides of different types: {:?}", x));
            }
            Ok((l == r) == x.0)
        })
        .collect()
}
/// The result is the input, in normal form, variable k standing for variable h[k].
fn is_normal_form(c: &Clause, input: &[L], salt: u64, h: &[u16], pinned: usize) -> Result<(), String> {
    let out = views(&c.literals);
    ensure("one variable for each of the context", h.len() == c.get_local_context().len())?;
    ensure("pinned variables keep their numbers", (0..pinned).all(|i| h[i] as usize == i))?;
    for (k, t) in types_of(c.get_local_context()).iter().enumerate() {
        want("type", t.as_ref(), Some(&var_type(h[k])))?;
    }
    for x in &out {
        ensure("variables of the literals have types", lit_vars(x).iter().all(|i| (*i as usize) < h.len()))?;
        ensure("no closed impossible literal", x.0 || x.1 != x.2 || !lit_vars(x).is_empty())?;
    }
    for w in c.literals.windows(2) {
        want("strictly ascending", w[0].cmp(&w[1]), Less)?;
    }
    let budget = |r: Result<Vec<bool>, String>| match r {
        Err(x) if x == "budget" => Ok(None),
        Err(x) => Err(x),
        Ok(v) => Ok(Some(v)),
    };
    let ids: Vec<u16> = (0..VARS).collect();
    let mut a = vec![];
    for x in input {
        match budget(truths(x, salt, &ids))? {
            Some(v) => a.push(v),
            None => return Ok(()), // too large to evaluate within the bound
        }
    }
    let mut z = vec![];
    for x in &out {
        match budget(truths(x, salt, h))? {
            Some(v) => z.push(v),
            None => return Ok(()),
        }
    }
    for (k, v) in z.iter().enumerate() {
        ensure(&format!("literal {:?} means what one of the input means", out[k]), a.contains(v))?;
    }
    for (k, v) in a.iter().enumerate() {
        if !z.contains(v) {
            let x = &input[k];
            ensure(&format!("dropped literal {:?} is never true", x), v.iter().all(|b| !b))?;
            let n = |t: &T| read(&norm::normalize_clause_term(&build(t)));
            ensure(&format!("dropped literal {:?} has no variable", x), lit_vars(&(x.0, n(&x.1), n(&x.2))).is_empty())?;
        }
    }
    Ok(())
}
/// For some one-to-one renumbering that keeps types.
fn is_some_normal_form(c: &Clause, input: &[L], salt: u64, pinned: usize) -> Result<(), String> {
    let types = types_of(c.get_local_context());
    let mut h: Vec<u16> = vec![];
    let mut why = Err(format!("no variables of the types {:?}", types));
    fn go(c: &Clause, input: &[L], salt: u64, pinned: usize, types: &[Option<T>], h: &mut Vec<u16>, why: &mut Result<(), String>) {
        let k = h.len();
        if k == types.len() {
            *why = is_normal_form(c, input, salt, h, pinned);
            return;
        }
        for i in 0..VARS {
            if types[k].as_ref() == Some(&var_type(i)) && !h.contains(&i) && (k >= pinned || i as usize == k) {
                h.push(i);
                go(c, input, salt, pinned, types, h, why);
                h.pop();
                if why.is_ok() {
                    return;
                }
            }
        }
    }
    go(c, input, salt, pinned, &types, &mut h, &mut why);
    why
}

fn normalizing(b: &mut Bench, input: Vec<L>, pinned: usize, salt: u64) {
    let nt = input.len() > 1;
    b.case("clause.normalize", &(input, pinned, salt), nt, |(input, pinned, salt)| {
        let all: Vec<T> = (0..VARS).map(var_type).collect();
        let ctx = context(&all);
        let lits = || -> Vec<Literal> { input.iter().map(make).collect() };
        for p in [0, *pinned] {
            let t = if p == 0 { Clause::normalize_with_trace(lits(), &ctx) } else { Clause::normalize_with_trace_pinned(lits(), &ctx, p) };
            want("the context before", types_of(&t.pre_norm_context), types_of(&ctx))?;
            is_normal_form(&t.clause, input, *salt, &t.var_ids, p).map_err(|e| format!("normalize_with_trace, {} pinned: {} in {:?}", p, e, t.clause))?;
            let c = if p == 0 { Clause::new(lits(), &ctx) } else { Clause::new_with_pinned_vars(lits(), &ctx, p) };
            is_some_normal_form(&c, input, *salt, p).map_err(|e| format!("new, {} pinned: {} in {:?}", p, e, c))?;
        }
        let (c, ids) = Clause::normalize_with_var_ids(lits(), &ctx);
        is_normal_form(&c, input, *salt, &ids, 0).map_err(|e| format!("normalize_with_var_ids: {}", e))?;
        let raw = Clause::from_literals_unnormalized(lits(), &ctx);
        want("from_literals_unnormalized", (views(&raw.literals), types_of(raw.get_local_context())), (input.clone(), types_of(&ctx)))?;
        is_some_normal_form(&raw.normalized(), input, *salt, 0).map_err(|e| format!("normalized: {}", e))?;
        is_some_normal_form(&raw.normalized_preserving_locals(), input, *salt, VARS as usize).map_err(|e| format!("normalized_preserving_locals: {}", e))
    });
}

/// The variable, after the variables its type needs.
fn with_types(i: u16, types: &[T], order: &mut Vec<u16>) {
    if !order.contains(&i) {
        for j in free_vars(&types[i as usize]) {
            with_types(j, types, order);
        }
        order.push(i);
    }
}
/// Literals no rewriting rule applies to, over a context whose types mention variables: exact.
fn renumbering(b: &mut Bench, input: Vec<L>, types: Vec<T>, pinned: usize) {
    let nt = input.len() > 1;
    b.case("clause.renumber", &(input, types, pinned), nt, |(input, types, pinned)| {
        let ctx = context(types);
        let lits = || -> Vec<Literal> { input.iter().map(make).collect() };
        let ids: Vec<u16> = (0..types.len() as u16).collect();
        let either = |x: &L, y: &L| x.0 == y.0 && (x.1 == y.1 && x.2 == y.2 || x.1 == y.2 && x.2 == y.1);
        let check = |what: &str, c: &Clause, h: &[u16], p: usize, exact: bool| -> Result<(), String> {
            let at = |e: String| format!("{}: {} in {:?} with {:?}", what, e, c, h);
            let out: Vec<L> = views(&c.literals).iter().map(|x| lit_ren(x, h)).collect();
            if !exact {
                for w in c.literals.windows(2) {
                    want("strictly ascending", w[0].cmp(&w[1]), Less).map_err(at)?;
                }
            }
            ensure("no repeated variable", (0..h.len()).all(|i| !h[..i].contains(&h[i]))).map_err(at)?;
            ensure("pinned", (0..p).all(|i| h[i] as usize == i)).map_err(at)?;
            want("context", c.get_local_context().len(), h.len()).map_err(at)?;
            for (k, t) in types_of(c.get_local_context()).iter().enumerate() {
                want("type", t.as_ref().map(|t| ren(t, h)).as_ref(), types.get(h[k] as usize)).map_err(at)?;
            }
            for x in &out {
                ensure("stems from the input", input.iter().any(|y| if exact { x == y } else { either(x, y) })).map_err(at)?;
            }
            for x in input {
                let gone = !x.0 && x.1 == x.2 && lit_vars(x).is_empty();
                if exact {
                    want("copies", out.iter().filter(|y| *y == x).count(), input.iter().filter(|y| *y == x).count()).map_err(at)?;
                } else {
                    want(&format!("copies of {:?}", x), out.iter().filter(|y| either(x, y)).count(), !gone as usize).map_err(at)?;
                }
            }
            Ok(())
        };
        for p in [0, *pinned] {
            let t = Clause::normalize_with_trace_pinned(lits(), &ctx, p);
            check("normalize_with_trace_pinned", &t.clause, &t.var_ids, p, false)?;
        }
        let t = Clause::normalize_with_trace(lits(), &ctx);
        check("normalize_with_trace", &t.clause, &t.var_ids, 0, false)?;
        let raw = Clause::from_literals_unnormalized(lits(), &ctx);
        check("normalized_preserving_locals", &raw.normalized_preserving_locals(), &ids, types.len(), false)?;
        check("new_with_pinned_vars", &Clause::new_with_pinned_vars(lits(), &ctx, types.len()), &ids, types.len(), false)?;
        for p in [0, *pinned] {
            let c = if p == 0 { Clause::new(lits(), &ctx) } else { Clause::new_with_pinned_vars(lits(), &ctx, p) };
            let mut why = Err("no renumbering".to_string());
            fn go(m: usize, of: usize, h: &mut Vec<u16>, why: &mut Result<(), String>, check: &dyn Fn(&[u16]) -> Result<(), String>) {
                if h.len() == m {
                    *why = check(h);
                    return;
                }
                for i in 0..of as u16 {
                    if !h.contains(&i) {
                        h.push(i);
                        go(m, of, h, why, check);
                        h.pop();
                        if why.is_ok() {
                            return;
                        }
                    }
                }
            }
            go(c.get_local_context().len(), types.len(), &mut vec![], &mut why, &|h| check("new", &c, h, p, false));
            why?;
        }
        // renumbering without anything else
        let mut order: Vec<u16> = vec![];
        for x in input {
            for i in lit_vars(x) {
                with_types(i, types, &mut order);
            }
        }
        let c = raw.compacted_var_ids_preserving_literal_shape();
        check("compacted_var_ids_preserving_literal_shape", &c, &order, 0, true)?;
        want("literals stay in place", views(&c.literals).iter().map(|x| lit_ren(x, &order)).collect::<Vec<L>>(), input.clone())?;
        // the key form: the same literals, none merged
        let k = raw.key_canonicalized_with_pinned(types.len());
        want("key form", k.literals.len(), input.len())?;
        for w in k.literals.windows(2) {
            ensure("key form ascending", w[0].cmp(&w[1]) != Greater)?;
        }
        let got = views(&k.literals);
        for x in input {
            want("key form copies", got.iter().filter(|y| either(x, y)).count(), input.iter().filter(|y| either(x, y)).count())?;
        }
        Ok(())
    });
}

fn queries(b: &mut Bench, x: Vec<L>, y: Vec<L>, types: Vec<T>) {
    b.case("clause.queries", &(x, y, types), true, |(x, y, types)| {
        let ctx = context(types);
        let c = Clause::from_literals_unnormalized(x.iter().map(make).collect(), &ctx);
        let d = Clause::from_literals_unnormalized(y.iter().map(make).collect(), &ctx);
        want("len", c.len(), x.len())?;
        want("is_impossible", c.is_impossible(), x.is_empty())?;
        ensure("impossible", Clause::impossible().len() == 0 && Clause::impossible().is_impossible())?;
        want("contains", c.contains(&d), y.iter().all(|l| x.contains(l)))?;
        want("has_any_variable", c.has_any_variable(), x.iter().any(|l| !lit_vars(l).is_empty()))?;
        let ats = |l: &L| {
            let mut v = vec![];
            atoms(&l.1, &mut v);
            atoms(&l.2, &mut v);
            v
        };
        want("has_scoped_constant", c.has_scoped_constant(), x.iter().any(|l| ats(l).iter().any(|a| matches!(a, S(Symbol::ScopedConstant(_))))))?;
        let (u, p) = c.extract_polarity();
        want("extract_polarity", (views(&u.literals), p), (x.iter().map(|l| (true, l.1.clone(), l.2.clone())).collect(), x.iter().map(|l| l.0).collect::<Vec<_>>()))?;
        want("extract_polarity keeps the context", types_of(u.get_local_context()), types_of(&ctx))?;
        fn head(t: &T) -> Option<&T> {
            match t {
                N(K::App, l, _) => head(l),
                N(..) => None,
                _ => Some(t),
            }
        }
        if x.iter().all(|l| head(&l.1).is_some() && head(&l.2).is_some()) {
            for a in x.iter().flat_map(|l| ats(l)).chain([S(Symbol::True)]) {
                want("has_head", c.has_head(&leaf_atom(&a)), x.iter().any(|l| head(&l.1) == Some(&a) || head(&l.2) == Some(&a)))?;
            }
        }
        let opposed = |v: &[L]| v.iter().any(|l| !l.0 && v.iter().any(|m| m.0 && l.1 == m.1 && l.2 == m.2)) || v.iter().any(|l| l.0 && l.1 == l.2);
        let mut sorted = x.clone();
        sorted.sort_by_key(|l| l.0);
        let s = Clause::from_literals_unnormalized(sorted.iter().map(make).collect(), &ctx);
        want("is_tautology", s.is_tautology(), opposed(x))
    });
}

/// A literal between well-typed terms, or a signed term.
fn typed_lit(r: &mut Rng, fuel: usize) -> L {
    let p = r.chance(1, 2);
    if r.chance(1, 2) {
        return (p, gen(r, &bool_(), &mut vec![], fuel), S(Symbol::True));
    }
    let t = small_type(r);
    let a = gen(r, &t, &mut vec![], fuel / 2);
    let z = if r.chance(1, 4) { a.clone() } else { gen(r, &t, &mut vec![], fuel / 2) };
    (p, a, z)
}
/// The literal another way.
fn disguised(r: &mut Rng, x: &L) -> L {
    match r.below(4) {
        0 => (x.0, x.2.clone(), x.1.clone()),
        1 if x.2 == S(Symbol::True) => (!x.0, not(x.1.clone()), x.2.clone()),
        2 => (!x.0, x.1.clone(), x.2.clone()),
        _ => x.clone(),
    }
}

pub fn run(b: &mut Bench) {
    b.phase(0.5);
    while b.time_left() {
        let mut v: Vec<L> = vec![];
        for _ in 0..b.rng.below(5) {
            let fuel = b.rng.below(6);
            let l = if b.rng.chance(1, 3) && !v.is_empty() {
                let old: L = b.rng.pick(&v).clone();
                disguised(&mut b.rng, &old)
            } else {
                typed_lit(&mut b.rng, fuel)
            };
            v.push(l);
        }
        if v.iter().any(|l| size(&l.1) + size(&l.2) > 60) {
            continue;
        }
        let pinned = b.rng.below(5);
        let salt = b.rng.next() >> 8;
        normalizing(b, v, pinned, salt);
    }
    b.phase(0.5);
    let plain = Gen { frees: vec![0, 1, 2, 3, 4], bounds: vec![], symbols: vec![c(0), c(1), g(0, 1)], kinds: vec![K::App] };
    let tiny = Gen { frees: vec![0, 1, 2], bounds: vec![], symbols: vec![c(0)], kinds: vec![K::App] };
    while b.time_left() {
        let gt = if b.rng.chance(1, 2) { &tiny } else { &plain };
        // the types of later variables may mention earlier ones
        let mut types = vec![S(Symbol::Type0)];
        for i in 1..5u16 {
            let t = match b.rng.below(4) {
                0 => S(Symbol::Type0),
                1 => F(b.rng.below(i as usize) as u16),
                2 => fun(&F(b.rng.below(i as usize) as u16), &F(b.rng.below(i as usize) as u16)),
                _ => d(),
            };
            types.push(t);
        }
        let flat = b.rng.chance(1, 2);
        let lits = |b: &mut Bench| {
            let mut v: Vec<L> = vec![];
            for _ in 0..b.rng.below(5) {
                let side = |b: &mut Bench| {
                    if flat {
                        // the order of such terms depends on the numbering only
                        let v = |b: &mut Bench| F(b.rng.below(5) as u16);
                        return if b.rng.chance(1, 3) { v(b) } else { app(app(c(b.rng.below(2) as u16), v(b)), v(b)) };
                    }
                    let i = b.rng.below(4);
                    gt.tree(&mut b.rng, i)
                };
                let a = side(b);
                let z = match b.rng.below(if flat { 12 } else { 4 }) {
                    0 => a.clone(),
                    1 => S(Symbol::True),
                    _ => side(b),
                };
                let p = b.rng.chance(1, 2);
                let x = if b.rng.chance(1, 4) && !v.is_empty() {
                    let old = b.rng.pick(&v).clone();
                    match b.rng.below(3) {
                        0 => (old.0, old.2, old.1),
                        1 => (!old.0, old.1, old.2),
                        _ => old,
                    }
                } else {
                    (p, a, z)
                };
                v.push(x);
            }
            v
        };
        let (x, y) = (lits(b), lits(b));
        let y = if b.rng.chance(1, 2) && !x.is_empty() { vec![b.rng.pick(&x).clone()] } else { y };
        let pinned = b.rng.below(6);
        renumbering(b, x.clone(), types.clone(), pinned);
        queries(b, x, y, types);
    }
}
