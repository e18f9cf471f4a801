//! C07: literals keep their meaning and are oriented.
use super::base::*;
use super::terms::*;
use super::terms::T::*;
use crate::kernel::literal::Literal;
use crate::kernel::local_context::LocalContext;
use crate::kernel::symbol::Symbol;
use std::cmp::Ordering::{self, *};

type L = (bool, T, T);
fn view(x: &Literal) -> L {
    (x.positive, read(&x.left), read(&x.right))
}
fn ext(a: &T, b: &T) -> Ordering {
    build(a).extended_kbo_cmp(&build(b))
}
/// The literal that new must give, and whether its sides are swapped.
fn built(p: bool, a: &T, b: &T) -> (L, bool) {
    if ext(a, b) == Less {
        ((p, b.clone(), a.clone()), true)
    } else {
        ((p, a.clone(), b.clone()), false)
    }
}
fn make(x: &L) -> Literal {
    let mut y = Literal::new(x.0, build(&x.1), build(&x.2));
    if view(&y) != *x {
        y.flip();
    }
    y
}
fn head_is_true(t: &T) -> bool {
    match t {
        N(_, l, _) => head_is_true(l),
        S(Symbol::True) => true,
        _ => false,
    }
}

fn checks(b: &mut Bench, p: bool, s: &T, t: &T) {
    let nt = s != t;
    b.case("literal.build", &(p, s.clone(), t.clone()), nt, |(p, s, t)| {
        let (a, z) = (build(s), build(t));
        let (x, flipped) = Literal::new_with_flip(*p, a.clone(), z.clone());
        want("new_with_flip", (view(&x), flipped), built(*p, s, t))?;
        ensure("is_normalized", x.is_normalized())?;
        want("new", view(&Literal::new(*p, a.clone(), z.clone())), built(*p, s, t).0)?;
        want("equals", view(&Literal::equals(a.clone(), z.clone())), built(true, s, t).0)?;
        want("not_equals", view(&Literal::not_equals(a.clone(), z.clone())), built(false, s, t).0)?;
        let tr = S(Symbol::True);
        want("positive", view(&Literal::positive(a.clone())), built(true, s, &tr).0)?;
        want("negative", view(&Literal::negative(a.clone())), built(false, s, &tr).0)?;
        want("from_signed_term", view(&Literal::from_signed_term(a.clone(), *p)), built(*p, s, &tr).0)?;
        // the mirror image states the same
        want("the same literal from swapped sides", view(&Literal::new(*p, z, a)), built(*p, s, t).0)
    });
    b.case("literal.queries", &(p, s.clone(), t.clone()), true, |(p, s, t)| {
        let x = make(&(*p, s.clone(), t.clone()));
        want("made", view(&x), (*p, s.clone(), t.clone()))?;
        want("negate", view(&x.negate()), (!*p, s.clone(), t.clone()))?;
        let (y, q) = x.extract_polarity();
        want("extract_polarity", (view(&y), q), ((true, s.clone(), t.clone()), *p))?;
        want("is_tautology", x.is_tautology(), *p && s == t)?;
        want("is_impossible", x.is_impossible(), !*p && s == t)?;
        want("is_signed_term", x.is_signed_term(), head_is_true(t))?;
        want("is_normalized", x.is_normalized(), ext(s, t) != Less)?;
        want("is_true_value", x.is_true_value(), *p && head_is_true(s) && head_is_true(t))?;
        want("is_false_value", x.is_false_value(), !*p && head_is_true(s) && head_is_true(t))?;
        let mut fv = free_vars(s);
        fv.extend(free_vars(t));
        want("has_any_variable", x.has_any_variable(), !fv.is_empty())?;
        let mut v = vec![];
        atoms(s, &mut v);
        atoms(t, &mut v);
        want("atom_count", x.atom_count() as usize, v.iter().filter(|a| !matches!(a, S(Symbol::True) | S(Symbol::False))).count())?;
        want("has_scoped_constant", x.has_scoped_constant(), v.iter().any(|a| matches!(a, S(Symbol::ScopedConstant(_)))))?;
        match aborts(|| x.least_unused_variable()) {
            Some(u) => ensure("least_unused_variable", fv.iter().all(|i| *i < u))?,
            None => ensure("least_unused_variable aborts only when no id is left", fv.contains(&65535))?,
        }
        let pairs: Vec<L> = x.both_term_pairs().into_iter().map(|(f, a, b)| (f, read(a), read(b))).collect();
        want("both_term_pairs", pairs, vec![(true, s.clone(), t.clone()), (false, t.clone(), s.clone())])?;
        match aborts(|| x.strict_kbo()) {
            Some(k) => want("strict_kbo", k, build(s).kbo_cmp(&build(t)) == Greater)?,
            None => ensure("strict_kbo aborts only on a literal with the smaller side first", ext(s, t) == Less)?,
        }
        let mut y = x.clone();
        y.flip();
        want("flip", view(&y), (*p, t.clone(), s.clone()))
    });
    b.case("literal.renumber", &(p, s.clone(), t.clone()), nt, |(p, s, t)| {
        let mut fv = free_vars(s);
        fv.extend(free_vars(t));
        let max = fv.iter().max().copied().unwrap_or(0);
        if max > 300 {
            return Ok(());
        }
        // the type of variable i is variable 0, that of variable 0 is Type0
        let types: Vec<T> = (0..=max).map(|i| if i == 0 { S(Symbol::Type0) } else { n(K::Pi, F(0), F(0)) }).collect();
        let ctx = LocalContext::from_types(types.iter().map(build).collect());
        let number = |a: &T, b: &T| {
            let mut order: Vec<u16> = vec![];
            for i in free_vars(a).into_iter().chain(free_vars(b)) {
                for j in [0, i] {
                    if !order.contains(&j) {
                        order.push(j);
                    }
                }
            }
            order
        };
        let ren = |t: &T, order: &[u16]| map_leaves(t, 0, &mut |a, _| match a {
            F(i) => F(order.iter().position(|j| j == i).unwrap() as u16),
            _ => a.clone(),
        });
        let mut x = make(&(*p, s.clone(), t.clone()));
        let mut ids = vec![];
        let flipped = x.normalize_var_ids_with_context(&mut ids, &ctx);
        let order = number(s, t);
        want("variables in order", ids, order.clone())?;
        want("normalize_var_ids_with_context", (view(&x), flipped), built(*p, &ren(s, &order), &ren(t, &order)))?;
        let x = make(&(*p, s.clone(), t.clone()));
        let order = number(t, s);
        want("reversed_var_ids", x.reversed_var_ids(&ctx), order.clone())?;
        let (l, r, out) = x.normalized_reversed(&ctx);
        want("normalized_reversed", (read(&l), read(&r)), (ren(t, &order), ren(s, &order)))?;
        want("types of the renumbered variables", out.len(), order.len())?;
        for (k, i) in order.iter().enumerate() {
            want("type", out.get_var_type(k).map(read), Some(ren(&types[*i as usize], &order)))?;
        }
        Ok(())
    });
}
fn compare(b: &mut Bench, x: &L, y: &L) {
    b.case("literal.order", &(x.clone(), y.clone()), x != y, |(x, y)| {
        let (p, q) = (make(x), make(y));
        let e = ext(&x.1, &y.1).then(ext(&x.2, &y.2));
        want("extended_kbo_cmp", p.extended_kbo_cmp(&q), e)?;
        // larger literals first
        want("cmp", p.cmp(&q), x.0.cmp(&y.0).then(ext(&y.1, &x.1)).then(ext(&y.2, &x.2)))?;
        want("partial_cmp", p.partial_cmp(&q), Some(p.cmp(&q)))?;
        want("cmp reversed", q.cmp(&p), p.cmp(&q).reverse())?;
        let st = |a: &T, b: &T| build(a).stable_cmp(&build(b));
        want("stable_cmp", p.stable_cmp(&q), x.0.cmp(&y.0).then(st(&x.1, &y.1)).then(st(&x.2, &y.2)))
    });
}

pub fn run(b: &mut Bench) {
    let gen = Gen { frees: vec![0, 1], bounds: vec![], symbols: vec![c(0), S(Symbol::True), c(1)], kinds: vec![K::App] };
    b.phase(0.4);
    let small: Vec<T> = (0..3).flat_map(|k| gen.all(k)).collect();
    for s in &small {
        for t in &small {
            if b.time_left() {
                let p = b.rng.chance(1, 2);
                checks(b, p, s, t);
            }
        }
    }
    b.phase(0.6);
    let near = Gen { frees: vec![0, 1, 2, 3, 4], bounds: vec![0, 1], symbols: vec![c(0), c(1), g(0, 1), g(1, 0), S(Symbol::True), S(Symbol::Not)], kinds: KINDS.to_vec() };
    let wide = Gen::wide();
    while b.time_left() {
        let gt = if b.rng.chance(1, 25) { &wide } else { &near };
        let mut x = vec![];
        for _ in 0..4 {
            let inner = b.rng.below(8);
            x.push(gt.tree(&mut b.rng, inner));
        }
        if b.rng.chance(1, 4) {
            x[1] = x[0].clone();
        }
        if b.rng.chance(1, 3) {
            x[2] = x[0].clone();
        }
        if b.rng.chance(1, 3) {
            x[3] = x[1].clone();
        }
        let (p, q) = (b.rng.chance(1, 2), b.rng.chance(1, 2));
        checks(b, p, &x[0], &x[1]);
        let l: L = (p, x[0].clone(), x[1].clone());
        let m: L = (q, x[2].clone(), x[3].clone());
        compare(b, &l, &m);
    }
}
