//! C04: the term comparisons are the orders the prover relies on.
use super::base::*;
use super::terms::*;
use super::terms::{K::*, T::*};
use crate::kernel::symbol::Symbol;
use std::cmp::Ordering::{self, *};

fn weights(t: &T) -> (u64, u64) {
    match t {
        F(_) => (0, 0),
        B(_) => (1, 0),
        S(Symbol::True) | S(Symbol::False) => (0, 0),
        S(Symbol::GlobalConstant(m, i)) => (1, 4 * (m.get() as u64 * 65536 + *i as u64)),
        S(Symbol::ScopedConstant(i)) => (1, 1 + 4 * *i as u64),
        S(Symbol::Type(t)) => (1, 4 * (t.module_id().get() as u64 * 65536 + t.local_id() as u64)),
        S(Symbol::Typeclass(t)) => (1, 4 * (t.module_id().get() as u64 * 65536 + t.local_id() as u64)),
        S(_) => (1, 0),
        N(k, l, r) => {
            let (a, b) = weights(l);
            let (c, d) = weights(r);
            (a + c + under(*k) as u64, b + d)
        }
    }
}
fn count(t: &T, x: u16) -> usize {
    free_vars(t).iter().filter(|i| **i == x).count()
}
fn dominates(a: &T, b: &T) -> bool {
    free_vars(b).iter().all(|x| count(a, *x) >= count(b, *x))
}
fn kbo(a: &T, b: &T) -> Ordering {
    match weights(a).cmp(&weights(b)) {
        Greater if dominates(a, b) => Greater,
        Less if dominates(b, a) => Less,
        _ => Equal,
    }
}

fn pair(b: &mut Bench, x: &T, y: &T) {
    let nt = x != y;
    b.case("order.pair", &(x.clone(), y.clone()), nt, |(x, y)| {
        let (p, q) = (build(x), build(y));
        let e = p.extended_kbo_cmp(&q);
        want("extended comparison equal only for identical terms", e == Equal, x == y)?;
        want("extended comparison antisymmetric", q.extended_kbo_cmp(&p), e.reverse())?;
        let k = p.kbo_cmp(&q);
        want("reduction ordering", k, kbo(x, y))?;
        want("reduction ordering antisymmetric", q.kbo_cmp(&p), k.reverse())?;
        if k != Equal {
            want("extended comparison extends the reduction ordering", e, k)?;
        }
        let s = p.stable_cmp(&q);
        want("stable comparison antisymmetric", q.stable_cmp(&p), s.reverse())?;
        let mask = |t: &T| map_leaves(t, 0, &mut |a, _| if let F(_) = a { F(0) } else { a.clone() });
        want("stable comparison equal only up to the names of free variables", s == Equal, mask(x) == mask(y))?;
        // renaming the variables of either side, apart, does not change it
        let ren = |t: &T, m: u16| map_leaves(t, 0, &mut |a, _| if let F(i) = a { F((i % 97) * 3 + m) } else { a.clone() });
        want("stable comparison under renaming", build(&ren(x, 1)).stable_cmp(&build(&ren(y, 700))), s)?;
        want("stable comparison of a renamed copy", p.stable_cmp(&build(&ren(x, 5))), Equal)?;
        want("TermRef comparisons agree", (p.as_ref().kbo_cmp(&q.as_ref()), p.as_ref().extended_kbo_cmp(&q.as_ref()), p.as_ref().stable_cmp(&q.as_ref())), (k, e, s))
    });
}
fn stability(b: &mut Bench, x: &T, y: &T, v: &T, z: &T, ctx: K) {
    if kbo(x, y) != Greater {
        return;
    }
    b.case("order.stability", &(x.clone(), y.clone(), v.clone(), z.clone(), ctx), true, |(x, y, v, z, k)| {
        for i in free_vars(x) {
            let (p, q) = (rep(x, i, v), rep(y, i, v));
            want("reduction ordering kept by substitution", build(&p).kbo_cmp(&build(&q)), Greater)?;
        }
        let l = (n(*k, x.clone(), z.clone()), n(*k, y.clone(), z.clone()));
        let r = (n(*k, z.clone(), x.clone()), n(*k, z.clone(), y.clone()));
        want("reduction ordering kept on the left", build(&l.0).kbo_cmp(&build(&l.1)), Greater)?;
        want("reduction ordering kept on the right", build(&r.0).kbo_cmp(&build(&r.1)), Greater)
    });
}
fn triple(b: &mut Bench, x: &T, y: &T, z: &T) {
    b.case("order.triple", &(x.clone(), y.clone(), z.clone()), true, |(x, y, z)| {
        let (p, q, r) = (build(x), build(y), build(z));
        let tri = |a: Ordering, b: Ordering, c: Ordering| (a != Equal || c == b) && (b != Equal || c == a) && (a != b || c == a);
        ensure("extended comparison transitive", tri(p.extended_kbo_cmp(&q), q.extended_kbo_cmp(&r), p.extended_kbo_cmp(&r)))?;
        ensure("stable comparison transitive", tri(p.stable_cmp(&q), q.stable_cmp(&r), p.stable_cmp(&r)))?;
        let (a, c, e) = (p.kbo_cmp(&q), q.kbo_cmp(&r), p.kbo_cmp(&r));
        ensure("reduction ordering transitive", a == Equal || a != c || e == a)
    });
}

pub fn run(b: &mut Bench) {
    let gen = Gen { frees: vec![0, 1], bounds: vec![0], symbols: vec![c(0), g(0, 1), S(Symbol::True)], kinds: vec![App, Pi, Lam] };
    let pool: Vec<T> = gen.all(0).into_iter().chain(gen.all(1)).collect();
    let two = gen.all(2);
    b.phase(0.3);
    for x in &pool {
        for y in &pool {
            if !b.time_left() {
                break;
            }
            pair(b, x, y);
        }
    }
    b.phase(0.15);
    while b.time_left() {
        let (x, y, z) = (b.rng.pick(&pool).clone(), b.rng.pick(&pool).clone(), b.rng.pick(&two).clone());
        triple(b, &x, &y, &z);
        let w = b.rng.pick(&two).clone();
        pair(b, &z, &w);
        let k = *b.rng.pick(&KINDS);
        stability(b, &z, &y, &x, &w, k);
    }
    b.phase(0.35);
    let near = Gen { frees: vec![0, 1, 2], bounds: vec![0, 1, 3, 4, 9], symbols: vec![c(0), c(1), g(0, 1), S(Symbol::True), S(Symbol::False), S(Symbol::Not)], kinds: KINDS.to_vec() };
    let wide = Gen::wide();
    while b.time_left() {
        let gt = if b.rng.chance(1, 3) { &wide } else { &near };
        let i = b.rng.below(9);
        let x = gt.tree(&mut b.rng, i);
        let j = b.rng.below(9);
        // half the time a neighbour of x, so that ties are reached
        let y = if b.rng.chance(1, 2) { gt.tree(&mut b.rng, j) } else { mutate(b, gt, &x) };
        let z = mutate(b, gt, &y);
        pair(b, &x, &y);
        pair(b, &x, &z);
        triple(b, &x, &y, &z);
        let v = gt.tree(&mut b.rng, 2);
        let k = *b.rng.pick(&KINDS);
        stability(b, &x, &y, &v, &z, k);
        stability(b, &y, &x, &v, &z, k);
    }
    // many symbols or many occurrences: counters must not wrap
    b.phase(0.2);
    let reps: &[usize] = &[255, 256, 257, 300];
    for m in reps {
        for leafs in [F(0), F(3), c(2), g(65535, 65535)] {
            let mut t = c(0);
            for _ in 0..*m {
                t = app(t, leafs.clone());
            }
            pair(b, &t, &app(c(0), leafs.clone()));
            pair(b, &app(c(0), leafs.clone()), &t);
            pair(b, &t, &app(app(c(0), F(0)), F(3)));
            stability(b, &t, &app(c(0), leafs.clone()), &app(c(9), g(65535, 65535)), &c(1), App);
        }
    }
    let big: usize = if b.thorough { 21000 } else { 9000 };
    let mut t = c(0);
    for _ in 0..big {
        t = app(t, g(65535, 65535));
    }
    b.case("order.weights", &big, true, |_| {
        let (p, q) = (build(&t), build(&app(c(0), c(1))));
        want("a much heavier term is greater", (p.kbo_cmp(&q), q.kbo_cmp(&p)), (Greater, Less))
    });
}

fn mutate(b: &mut Bench, gt: &Gen, t: &T) -> T {
    let mut subs = vec![];
    subterms(t, &mut subs);
    let at = b.rng.below(subs.len());
    let mut k = 0;
    fn go(t: &T, at: usize, k: &mut usize, f: &mut dyn FnMut(&T) -> T) -> T {
        let me = *k;
        *k += 1;
        if me == at {
            let r = f(t);
            return r;
        }
        match t {
            N(j, l, r) => {
                let l2 = go(l, at, k, f);
                n(*j, l2, go(r, at, k, f))
            }
            _ => t.clone(),
        }
    }
    let how = b.rng.below(4);
    let leaf = gt.leaf(&mut b.rng);
    let kind = *b.rng.pick(&KINDS);
    go(t, at, &mut k, &mut |s| match (s, how) {
        (N(_, l, r), 0) => N(kind, l.clone(), r.clone()),
        (N(j, l, r), 1) => N(*j, r.clone(), l.clone()),
        _ => leaf.clone(),
    })
}
