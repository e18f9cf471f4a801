//! C02: operations on bound variables do what capture-avoiding de Bruijn operations do.
use super::base::*;
use super::terms::*;
use super::terms::{K::*, T::*};
use crate::kernel::kernel_context::KernelContext;
use crate::kernel::local_context::LocalContext;
use crate::kernel::term::Term;

/// index x (counted from outside) replaced by v
pub fn subst(t: &T, x: u32, v: &T) -> Option<T> {
    let mut ok = true;
    let r = map_leaves(t, 0, &mut |a, d| match a {
        B(i) if *i as u32 == x + d => shift(v, 0, d as i64).unwrap_or_else(|| {
            ok = false;
            a.clone()
        }),
        _ => a.clone(),
    });
    ok.then_some(r)
}
/// body opened: index 0 becomes v, the ones above drop by one
pub fn inst(t: &T, v: &T) -> Option<T> {
    let mut ok = true;
    let r = map_leaves(t, 0, &mut |a, d| match a {
        B(i) if *i as u32 == d => shift(v, 0, d as i64).unwrap_or_else(|| {
            ok = false;
            a.clone()
        }),
        B(i) if *i as u32 > d => B(i - 1),
        _ => a.clone(),
    });
    ok.then_some(r)
}
fn high(t: &T) -> bool {
    any_leaf(t, 0, &mut |a, _| matches!(a, B(i) if *i > 60000))
}

fn checks(b: &mut Bench, t: &T, v: &T, x: u16, y: u16, am: i16) {
    let nt = has_bound(t);
    b.case("bound.shift", &(t.clone(), x, am), nt, |(t, x, am)| {
        let got = aborts(|| read(&build(t).shift_bound(*x, *am)));
        match (got, shift(t, *x as u32, *am as i64)) {
            (Some(g), Some(e)) => want("shift_bound", g, e),
            (Some(g), None) => Err(format!("shift_bound: an index left its range and the result is {:?}", g)),
            (None, Some(_)) => ensure("shift_bound does not abort when all indices stay in range", x.checked_add(depth(t) as u16).is_none()),
            (None, None) => Ok(()),
        }
    });
    b.case("bound.substitute", &(t.clone(), v.clone(), x), nt, |(t, v, x)| {
        let got = aborts(|| read(&build(t).substitute_bound(*x, &build(v))));
        match (got, subst(t, *x as u32, v)) {
            (Some(g), Some(e)) => want("substitute_bound", g, e),
            (Some(g), None) => Err(format!("substitute_bound: index overflow ignored, result {:?}", g)),
            (None, Some(_)) => ensure("substitute_bound aborts only near the index limit", *x > 60000 || high(t) || high(v)),
            (None, None) => Ok(()),
        }
    });
    b.case("bound.open", &(t.clone(), v.clone()), nt, |(t, v)| {
        let got = aborts(|| read(&build(t).open_bound(&build(v))));
        match (got, inst(t, v)) {
            (Some(g), Some(e)) => want("open_bound", g, e),
            (Some(g), None) => Err(format!("open_bound: index overflow ignored, result {:?}", g)),
            (None, Some(_)) => ensure("open_bound aborts only near the index limit", high(t) || high(v)),
            (None, None) => Ok(()),
        }?;
        let got = aborts(|| Term::pi(build(&c(5)), build(t)).type_apply_with_arg(&build(v)).map(|t| read(&t)));
        if let (Some(g), Some(e)) = (got, inst(t, v)) {
            // for a function that does not depend on its argument the result type is used as it is
            let e = if has_bound(t) { e } else { t.clone() };
            want("type_apply_with_arg", g, Some(e))?;
        }
        if high(t) || high(v) {
            return Ok(());
        }
        let x = build(t);
        want("type_apply_with_arg on a term that is no function type",
            x.type_apply_with_arg(&build(v)).is_none(), !matches!(t, N(Pi, ..)))
    });
    b.case("bound.queries", &(t.clone(), x), nt, |(t, x)| {
        let r = build(t);
        let refs = any_leaf(t, *x as u32, &mut |a, d| matches!(a, B(i) if *i as u32 == d));
        match aborts(|| (r.references_bound(*x), r.as_ref().references_bound(*x))) {
            Some(g) => want("references_bound", g, (refs, refs))?,
            None => ensure("references_bound aborts only near the index limit", *x > 60000)?,
        }
        want("has_escaping_bound_variable", r.has_escaping_bound_variable(),
            any_leaf(t, 0, &mut |a, d| matches!(a, B(i) if *i as u32 >= d)))?;
        want("has_bound_variable", r.has_bound_variable(), has_bound(t))
    });
    b.case("bound.close", &(t.clone(), y, x), true, |(t, m, d0)| {
        let (m, d0) = (*m as u32, *d0 as u32);
        let mut ok = true;
        let e = map_leaves(t, d0, &mut |a, d| {
            let j = match a {
                F(i) if (*i as u32) < m => d + m - 1 - *i as u32,
                B(i) if *i as u32 >= d => *i as u32 + m,
                _ => return a.clone(),
            };
            ok &= j <= 65535;
            B(j as u16)
        });
        let got = aborts(|| read(&build(t).convert_free_to_bound_with_depth(m as u16, d0 as u16)));
        match got {
            Some(g) => {
                ensure("no index overflow ignored", ok || m == 0)?;
                want("convert_free_to_bound_with_depth", g, if m == 0 { t.clone() } else { e })
            }
            None => ensure("aborts only near the index limit", !ok || d0 > 60000),
        }?;
        if d0 == 0 && ok {
            if let Some(g) = aborts(|| read(&build(t).convert_free_to_bound(m as u16))) {
                let e = if m == 0 { t.clone() } else {
                    map_leaves(t, 0, &mut |a, d| match a {
                        F(i) if (*i as u32) < m => B((d + m - 1 - *i as u32) as u16),
                        B(i) if *i as u32 >= d => B((*i as u32 + m) as u16),
                        _ => a.clone(),
                    })
                };
                want("convert_free_to_bound", g, e)?;
            }
        }
        Ok(())
    });
}

/// The type of a binder term: the body is typed with a free variable in place of the bound
/// one and the result is abstracted again, whatever the body's type mentions.
fn typing(b: &mut Bench) {
    let kc = KernelContext::new();
    // a context of variables: x0 : Type, x1 : x0, x2 : (x0 -> x0), x3 : Pi(Type, b0 -> x0)
    let x = |i| F(i);
    let ty0 = S(crate::kernel::symbol::Symbol::Type0);
    let types = vec![ty0.clone(), x(0), n(Pi, x(0), x(0)), n(Pi, ty0.clone(), n(Pi, B(0), x(0))), n(Pi, ty0.clone(), n(Pi, B(0), B(1)))];
    let ctx = LocalContext::from_types(types.iter().map(build).collect());
    // typed bodies: (term, type) with one bound variable of a given type
    let mut r = Rng::new(b.seed ^ 77);
    let rounds = if b.thorough { 40000 } else { 8000 };
    for _ in 0..rounds {
        let t = typed(&mut r, &types, &mut vec![], 3);
        let Some((t, ty)) = t else { continue };
        b.case("bound.typing", &(t.clone(), ty.clone()), has_bound(&t), |(t, ty)| {
            let x = build(t);
            want("get_type_with_context", read(&x.get_type_with_context(&ctx, &kc)), ty.clone())?;
            match x.checked_type_with_context(&ctx, &kc) {
                Ok(g) => want("checked_type_with_context", read(&g), ty.clone()),
                Err(e) => Err(format!("checked_type_with_context rejects a well-typed term: {}", e)),
            }
        });
    }
}

/// A random well-typed value with its type; `scope` holds the types of the enclosing binders,
/// each as seen from where it was bound.
pub fn typed(r: &mut Rng, vars: &[T], scope: &mut Vec<T>, fuel: usize) -> Option<(T, T)> {
    let lookup = |scope: &Vec<T>, i: usize| -> T {
        let at = scope.len() - 1 - i;
        shift(&scope[at], 0, i as i64 + 1).unwrap()
    };
    if fuel == 0 || r.chance(1, 4) {
        let k = r.below(vars.len() - 1 + scope.len());
        if k < vars.len() - 1 {
            return Some((F(k as u16 + 1), vars[k + 1].clone()));
        }
        let i = k + 1 - vars.len();
        return Some((B(i as u16), lookup(scope, i)));
    }
    match r.below(4) {
        0 | 1 => {
            let (f, ft) = typed(r, vars, scope, fuel - 1)?;
            let N(Pi, i, o) = &ft else { return Some((f, ft)) };
            // an argument of the right type
            for _ in 0..12 {
                let a = if **i == vars[0] {
                    // a type argument
                    let mut tys = vec![F(0), n(Pi, F(0), F(0))];
                    for k in 0..scope.len() {
                        if lookup(scope, k) == vars[0] {
                            tys.push(B(k as u16));
                            tys.push(n(Pi, B(k as u16), B(k as u16 + 1)));
                        }
                    }
                    Some(r.pick(&tys).clone())
                } else {
                    typed(r, vars, scope, fuel - 1).filter(|(_, t)| *t == **i).map(|x| x.0)
                };
                if let Some(a) = a {
                    let rt = inst(o, &a)?;
                    return Some((app(f, a), rt));
                }
            }
            Some((f, ft.clone()))
        }
        2 => {
            // lambda over a value or a type
            let mut tys = vec![F(0), n(Pi, F(0), F(0)), vars[0].clone()];
            for k in 0..scope.len() {
                if lookup(scope, k) == vars[0] {
                    tys.push(B(k as u16));
                    tys.push(n(Pi, B(k as u16), F(0)));
                }
            }
            let bt = r.pick(&tys).clone();
            scope.push(bt.clone());
            let res = typed(r, vars, scope, fuel - 1);
            scope.pop();
            let (body, body_ty) = res?;
            Some((n(Lam, bt.clone(), body), n(Pi, bt, body_ty)))
        }
        _ => {
            let bt = F(0);
            scope.push(bt.clone());
            let res = typed(r, vars, scope, fuel - 1);
            scope.pop();
            let (body, body_ty) = res?;
            Some((n(Lam, bt.clone(), body), n(Pi, bt, body_ty)))
        }
    }
}

pub fn run(b: &mut Bench) {
    let gen = Gen { frees: vec![0, 1], bounds: vec![0, 1, 2], symbols: vec![c(0)], kinds: vec![App, Pi, Lam] };
    let vals = [B(0), B(1), F(1), app(B(0), c(0)), n(Lam, c(0), app(B(0), B(1))), n(All, B(0), B(0))];
    b.phase(0.3);
    'outer: for k in 0..3 {
        for t in gen.all(k) {
            let v = b.rng.pick(&vals).clone();
            let (x, y) = (b.rng.below(3) as u16, b.rng.below(3) as u16);
            let am = *b.rng.pick(&[-1i16, 0, 1, 2]);
            checks(b, &t, &v, x, y, am);
            if !b.time_left() {
                break 'outer;
            }
        }
    }
    b.phase(0.2);
    typing(b);
    b.phase(0.5);
    let near = Gen { frees: vec![0, 1, 2, 5], bounds: vec![0, 1, 2, 3, 4], symbols: vec![c(0), g(0, 1)], kinds: KINDS.to_vec() };
    let wide = Gen::wide();
    while b.time_left() {
        let far = b.rng.chance(1, 4);
        let (gt, inner) = (if far { &wide } else { &near }, b.rng.below(12));
        let t = gt.tree(&mut b.rng, inner);
        let iv = b.rng.below(4);
        let v = gt.tree(&mut b.rng, iv);
        let small = [0u16, 1, 2, 3, 4];
        let big = [0u16, 1, 2, 100, 32767, 32768, 65534, 65535];
        let x = if far { *b.rng.pick(&big) } else { *b.rng.pick(&small) };
        let y = if far { *b.rng.pick(&big) } else { *b.rng.pick(&small) };
        let am = if far { *b.rng.pick(&[-32768i16, -1, 1, 32767, 255, 256]) } else { *b.rng.pick(&[-2i16, -1, 0, 1, 2, 3]) };
        checks(b, &t, &v, x, y, am);
    }
}
