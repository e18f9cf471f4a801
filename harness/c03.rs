//! C03: replacing, renumbering and collecting free variables.
use super::base::*;
use super::terms::*;
use super::terms::T::*;
use crate::kernel::local_context::LocalContext;
use crate::kernel::term::Term;

fn first_occurrences(t: &T) -> Vec<u16> {
    let mut out = vec![];
    for i in free_vars(t) {
        if !out.contains(&i) {
            out.push(i);
        }
    }
    out
}

fn checks(b: &mut Bench, t: &T, v: &T, x: u16) {
    let fvs = free_vars(t);
    let nt = !fvs.is_empty();
    b.case("free.replace", &(t.clone(), x, v.clone()), nt, |(t, x, v)| {
        want("replace_variable", read(&build(t).replace_variable(*x, &build(v))), rep(t, *x, v))
    });
    b.case("free.replace_many", &(t.clone(), v.clone()), nt, |(t, v)| {
        // several variables by terms that do not mention them: same as all at once
        let ids = first_occurrences(t);
        let ids: Vec<u16> = ids.into_iter().take(3).collect();
        let vals: Vec<T> = ids.iter().enumerate().map(|(k, _)| app(c(40 + k as u16), map_leaves(v, 0, &mut |a, _| if matches!(a, F(_)) { c(9) } else { a.clone() }))).collect();
        let mut e = t.clone();
        e = map_leaves(&e, 0, &mut |a, _| match a {
            F(i) => ids.iter().position(|j| j == i).map(|p| vals[p].clone()).unwrap_or_else(|| a.clone()),
            _ => a.clone(),
        });
        let terms: Vec<Term> = vals.iter().map(build).collect();
        want("replace_variables", read(&build(t).replace_variables(&ids, &terms.iter().collect::<Vec<_>>())), e)
    });
    b.case("free.queries", &(t.clone(), x), nt, |(t, x)| {
        let r = build(t);
        let fvs = free_vars(t);
        want("has_variable", (r.has_variable(*x), r.as_ref().has_variable(*x)), (fvs.contains(x), fvs.contains(x)))?;
        want("has_any_variable", r.has_any_variable(), !fvs.is_empty())?;
        want("has_free_variable", r.has_free_variable(), !fvs.is_empty())?;
        want("max_variable", r.max_variable(), fvs.iter().max().copied())?;
        match aborts(|| r.least_unused_variable()) {
            Some(u) => ensure("least_unused_variable is above every variable", fvs.iter().all(|i| *i < u)),
            None => ensure("least_unused_variable aborts only when no id is left", fvs.contains(&65535)),
        }
    });
    b.case("free.renumber", t, nt, |t| {
        let mut order = vec![];
        let mut x = build(t);
        x.collect_structural_var_ids(&mut order);
        want("collect_structural_var_ids", order.clone(), first_occurrences(t))?;
        let mut padded = vec![9, 60000];
        build(t).collect_structural_var_ids(&mut padded);
        let mut e = vec![9, 60000];
        for i in first_occurrences(t) {
            if !e.contains(&i) {
                e.push(i);
            }
        }
        want("collect_structural_var_ids after others", padded, e)?;
        let ren = |t: &T| map_leaves(t, 0, &mut |a, _| match a {
            F(i) => F(first_occurrences(t).iter().position(|j| j == i).unwrap() as u16),
            _ => a.clone(),
        });
        want("renumber_variables", read(&x.renumber_variables(&order)), ren(t))?;
        // renumbering is undone by instantiating back
        let back: Vec<Term> = order.iter().map(|i| Term::new_variable(*i)).collect();
        let _ = back;
        x.apply_var_renumbering(&order, &[]);
        want("apply_var_renumbering", read(&x), ren(t))?;
        // split numbering: the rest come after
        let half = order.len() / 2;
        let mut y = build(t);
        y.apply_var_renumbering(&order[half..], &order[..half]);
        let split: Vec<u16> = order[half..].iter().chain(order[..half].iter()).copied().collect();
        let e = map_leaves(t, 0, &mut |a, _| match a {
            F(i) => F(split.iter().position(|j| j == i).unwrap() as u16),
            _ => a.clone(),
        });
        want("apply_var_renumbering with a second list", read(&y), e)
    });
    let (tables, salt) = (b.rng.below(256), b.rng.next());
    b.case("free.two_tables", &(t.clone(), tables), nt, |(t, tables)| {
        // any split of the variables over the two tables, in any order; some in neither
        let mut both: Vec<Vec<u16>> = vec![vec![], vec![], vec![]];
        for (k, i) in first_occurrences(t).into_iter().enumerate() {
            both[match (tables >> (2 * (k % 4))) & 3 { 0 => 0, 3 => 2, _ => 1 }].push(i);
        }
        both[0].reverse();
        let mut x = build(t);
        x.apply_var_renumbering(&both[0], &both[1]);
        let all: Vec<u16> = both[0].iter().chain(both[1].iter()).copied().collect();
        let e = map_leaves(t, 0, &mut |a, _| match a {
            F(i) => F(all.iter().position(|j| j == i).map_or(*i, |p| p as u16)),
            _ => a.clone(),
        });
        want("apply_var_renumbering with two tables", read(&x), e)
    });
    b.case("free.normalize_ids", &(t.clone(), salt), nt, |(t, salt)| {
        // variables whose types mention other variables: types first
        let max = free_vars(t).into_iter().max().unwrap_or(0);
        if max > 400 {
            return Ok(());
        }
        let mut rng = Rng::new(*salt);
        let max = max + rng.below(3) as u16;
        // rank[i]: types mention only variables of lower rank
        let mut rank: Vec<usize> = (0..=max as usize).collect();
        for i in (1..rank.len()).rev() {
            rank.swap(i, rng.below(i + 1));
        }
        let mut types: Vec<T> = vec![];
        for i in 0..=max as usize {
            let lower: Vec<u16> = (0..=max).filter(|j| rank[*j as usize] < rank[i]).collect();
            types.push(match (lower.is_empty(), rng.below(4)) {
                (true, _) | (_, 0) => S(crate::kernel::symbol::Symbol::Type0),
                (_, 1) => F(*rng.pick(&lower)),
                _ => Gen { frees: lower, bounds: vec![], symbols: vec![c(3)], kinds: vec![K::Pi, K::App] }.tree(&mut rng, 3),
            });
        }
        let ctx = LocalContext::from_types(types.iter().map(build).collect());
        fn add(i: u16, types: &[T], out: &mut Vec<u16>) {
            if out.contains(&i) {
                return;
            }
            for j in free_vars(&types[i as usize]) {
                add(j, types, out);
            }
            out.push(i);
        }
        let mut order = vec![];
        for i in free_vars(t) {
            add(i, &types, &mut order);
        }
        let mut x = build(t);
        let mut got = vec![];
        x.normalize_var_ids_with_context(&mut got, &ctx);
        want("normalize_var_ids_with_context order", got, order.clone())?;
        let e = map_leaves(t, 0, &mut |a, _| match a {
            F(i) => F(order.iter().position(|j| j == i).unwrap() as u16),
            _ => a.clone(),
        });
        want("normalize_var_ids_with_context", read(&x), e)?;
        let mut vars: Vec<(u16, T)> = build(t).collect_vars(&ctx).into_iter().map(|(i, ty)| (i, read(&ty))).collect();
        vars.sort_by_key(|v| v.0);
        vars.dedup();
        let mut e: Vec<(u16, T)> = first_occurrences(t).into_iter().map(|i| (i, types[i as usize].clone())).collect();
        e.sort_by_key(|v| v.0);
        want("collect_vars", vars, e)
    });
    b.case("free.remap_context", t, nt, |t| {
        let max = free_vars(t).into_iter().max().unwrap_or(0);
        if max > 400 {
            return Ok(());
        }
        let types: Vec<T> = (0..=max).map(|i| if i == 0 { S(crate::kernel::symbol::Symbol::Type0) } else { n(K::Pi, F(0), F(0)) }).collect();
        let ctx = LocalContext::from_types(types.iter().map(build).collect());
        let mut order = first_occurrences(t);
        if !order.contains(&0) {
            order.push(0);
        }
        let new = ctx.remap(&order);
        want("remap length", new.len(), order.len())?;
        for (k, i) in order.iter().enumerate() {
            let e = map_leaves(&types[*i as usize], 0, &mut |a, _| match a {
                F(i) => F(order.iter().position(|j| j == i).unwrap() as u16),
                _ => a.clone(),
            });
            want("remap", new.get_var_type(k).map(read), Some(e))?;
        }
        Ok(())
    });
    b.case("free.replace_subterm", &(t.clone(), v.clone()), true, |(t, v)| {
        let mut subs = vec![];
        subterms(t, &mut subs);
        let old = subs[subs.len() / 2].clone();
        fn go(t: &T, old: &T, new: &T) -> T {
            if t == old {
                return new.clone();
            }
            match t {
                N(k, l, r) => n(*k, go(l, old, new), go(r, old, new)),
                _ => t.clone(),
            }
        }
        want("replace_subterm", read(&build(t).replace_subterm(&build(&old), &build(v))), go(t, &old, v))?;
        let mut a = vec![];
        atoms(t, &mut a);
        let (o, w) = (a[0].clone(), c(77));
        want("replace_atom", read(&build(t).replace_atom(&leaf_atom(&o), &leaf_atom(&w))),
            map_leaves(t, 0, &mut |x, _| if *x == o { w.clone() } else { x.clone() }))
    });
}

pub fn run(b: &mut Bench) {
    let gen = Gen { frees: vec![0, 1, 2], bounds: vec![0], symbols: vec![c(0)], kinds: KINDS.to_vec() };
    let vals = [F(0), F(5), c(1), app(F(1), F(0)), app(c(1), F(9)), n(K::Lam, c(0), app(B(0), F(1)))];
    b.phase(0.4);
    'outer: for k in 0..3 {
        for t in gen.all(k) {
            let v = b.rng.pick(&vals).clone();
            let x = b.rng.below(4) as u16;
            checks(b, &t, &v, x);
            if !b.time_left() {
                break 'outer;
            }
        }
    }
    b.phase(0.6);
    let near = Gen { frees: vec![0, 1, 2, 3, 4, 5, 9], bounds: vec![0, 1], symbols: vec![c(0), g(0, 1)], kinds: KINDS.to_vec() };
    let wide = Gen::wide();
    while b.time_left() {
        let far = b.rng.chance(1, 4);
        let (gt, inner) = (if far { &wide } else { &near }, b.rng.below(14));
        let t = gt.tree(&mut b.rng, inner);
        let iv = b.rng.below(4);
        let v = gt.tree(&mut b.rng, iv);
        let x = *b.rng.pick(&gt.frees);
        checks(b, &t, &v, x);
    }
}
