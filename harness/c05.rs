//! C05: paths into terms and literals.
use super::base::*;
use super::terms::*;
use super::terms::{K::*, T::*};
use crate::kernel::literal::Literal;
use crate::kernel::symbol::Symbol;
use crate::kernel::term::PathStep;

/// Paths as lists of bools: true for the argument.
fn steps(p: &[bool]) -> Vec<PathStep> {
    p.iter().map(|x| if *x { PathStep::Argument } else { PathStep::Function }).collect()
}
fn at<'a>(t: &'a T, p: &[bool]) -> Option<&'a T> {
    match (t, p) {
        (_, []) => Some(t),
        (N(App, l, r), [s, rest @ ..]) => at(if *s { r } else { l }, rest),
        _ => None,
    }
}
fn put(t: &T, p: &[bool], v: &T) -> T {
    match (t, p) {
        (_, []) => v.clone(),
        (N(App, l, r), [false, rest @ ..]) => app(put(l, rest, v), (**r).clone()),
        (N(App, l, r), [true, rest @ ..]) => app((**l).clone(), put(r, rest, v)),
        _ => t.clone(),
    }
}
fn paths(t: &T, pre: &mut Vec<bool>, out: &mut Vec<Vec<bool>>) {
    out.push(pre.clone());
    if let N(App, l, r) = t {
        for (s, x) in [(false, l), (true, r)] {
            pre.push(s);
            paths(x, pre, out);
            pre.pop();
        }
    }
}
fn true_head(t: &T) -> bool {
    match t {
        N(_, l, _) => true_head(l),
        S(Symbol::True) => true,
        _ => false,
    }
}
fn live(t: &T, p: &[bool]) -> bool {
    !true_head(t) && match (t, p) {
        (_, []) => true,
        (N(App, l, r), [s, rest @ ..]) => live(if *s { r } else { l }, rest),
        _ => false,
    }
}

fn checks(b: &mut Bench, gt: &Gen, t: &T, v: &T) {
    let mut ps = vec![];
    paths(t, &mut vec![], &mut ps);
    let nt = ps.len() > 1;
    b.case("path.lookup", t, nt, |t| {
        let r = build(t);
        let mut ps = vec![];
        paths(t, &mut vec![], &mut ps);
        for p in &ps {
            want("get_term_at_path", r.get_term_at_path(&steps(p)).map(|x| read(&x)), at(t, p).cloned())?;
            want("TermRef::get_term_at_path", r.as_ref().get_term_at_path(&steps(p)).map(|x| read_ref(&x)), at(t, p).cloned())?;
            for s in [false, true] {
                let mut q = p.clone();
                q.push(s);
                want("get_term_at_path one further", r.get_term_at_path(&steps(&q)).map(|x| read(&x)), at(t, &q).cloned())?;
            }
        }
        Ok(())
    });
    let p = b.rng.pick(&ps).clone();
    let near = match at(t, &p) {
        Some(x) if b.rng.chance(1, 2) => gt.tweak(&mut b.rng, x),
        _ => v.clone(),
    };
    b.case("path.replace", &(t.clone(), p, near), nt, |(t, p, v)| {
        let got = build(t).replace_at_path(&steps(p), build(v));
        want("replace_at_path", read(&got), put(t, p, v))?;
        want("looking up what was put there", got.get_term_at_path(&steps(p)).map(|x| read(&x)), Some(v.clone()))?;
        ensure("the same flat encoding as a term built afresh", got == build(&put(t, p, v)))?;
        let mut out = p.clone();
        while at(t, &out).is_some() {
            out.push(true);
        }
        out.push(false);
        ensure("a path that leaves the term is refused", aborts(|| build(t).replace_at_path(&steps(&out), build(v))).is_none())
    });
    let ground = map_leaves(t, 0, &mut |a, _| match a {
        F(i) | B(i) if b.rng.chance(3, 4) => c(20 + (*i % 50)),
        _ => a.clone(),
    });
    b.case("path.list", &ground, nt, |t| {
        let mut ps = vec![];
        paths(t, &mut vec![], &mut ps);
        let mut e: Vec<(Vec<bool>, T)> = ps.into_iter().filter(|p| live(t, p)).map(|p| (p.clone(), at(t, &p).unwrap().clone())).collect();
        let r = build(t);
        let variables = e.iter().any(|x| matches!(x.1, F(_) | B(_)));
        let Some(got) = aborts(|| r.rewritable_subterms_with_paths()) else {
            return ensure("refused only if a rewritable position holds a variable", variables);
        };
        let mut got: Vec<(Vec<bool>, T)> = got
            .into_iter()
            .map(|(p, x)| (p.iter().map(|s| *s == PathStep::Argument).collect(), read(&x)))
            .collect();
        e.sort_by(|a, b| a.0.cmp(&b.0));
        got.sort_by(|a, b| a.0.cmp(&b.0));
        want("rewritable_subterms_with_paths", got, e)
    });
    let (left, positive) = (b.rng.chance(1, 2), b.rng.chance(1, 2));
    let q = b.rng.pick(&ps).clone();
    b.case("path.literal", &(t.clone(), v.clone(), left, positive, q), nt, |(t, v, left, positive, q)| {
        // a literal with t on the given side
        let mut x = Literal::new(*positive, build(t), build(v));
        if (read(&x.left) == *t) != *left {
            x.flip();
        }
        want("literal side", read(if *left { &x.left } else { &x.right }), t.clone())?;
        want("Literal::get_term_at_path", x.get_term_at_path(*left, &steps(q)).map(|x| read(&x)), at(t, q).cloned())?;
        let new = app(c(5), v.clone());
        let (y, flipped) = x.replace_at_path(*left, &steps(q), build(&new));
        let changed = put(t, q, &new);
        let (el, er) = if *left { (changed, v.clone()) } else { (v.clone(), changed) };
        let (el, er) = if flipped { (er, el) } else { (el, er) };
        want("Literal::replace_at_path", (y.positive, read(&y.left), read(&y.right)), (*positive, el, er))
    });
}

pub fn run(b: &mut Bench) {
    let gen = Gen { frees: vec![0], bounds: vec![0], symbols: vec![c(0), S(Symbol::True)], kinds: vec![App, Lam] };
    let vals = [F(3), app(c(1), F(0)), n(Lam, c(0), app(B(0), F(1))), app(app(c(1), c(2)), app(c(3), c(4)))];
    b.phase(0.4);
    'outer: for k in 0..5 {
        for t in gen.all(k) {
            let v = b.rng.pick(&vals).clone();
            checks(b, &gen, &t, &v);
            if !b.time_left() {
                break 'outer;
            }
        }
    }
    b.phase(0.6);
    let apps = Gen { frees: vec![0, 1, 2, 3], bounds: vec![0, 1], symbols: vec![c(0), g(0, 1), S(Symbol::True), S(Symbol::Not)], kinds: vec![App, App, App, App, Lam, Pi, All] };
    let wide = Gen::wide();
    while b.time_left() {
        let gt = if b.rng.chance(1, 4) { &wide } else { &apps };
        let inner = b.rng.below(16);
        let t = gt.tree(&mut b.rng, inner);
        let iv = b.rng.below(6);
        let v = gt.tree(&mut b.rng, iv);
        checks(b, gt, &t, &v);
    }
}
