//! C06: normalizing a term keeps its meaning and its type, and is idempotent.
use super::base::*;
use super::models::*;
use super::terms::*;
use super::terms::{K::*, T::*};
use crate::kernel::clause::Clause;
use crate::kernel::literal::Literal;
use crate::kernel::local_context::LocalContext;
use crate::kernel::symbol::Symbol;
use crate::kernel::term_normalization as norm;

fn sub_nodes(t: &T, bad: &mut dyn FnMut(&T) -> bool) -> bool {
    bad(t) || if let N(_, l, r) = t { sub_nodes(l, bad) || sub_nodes(r, bad) } else { false }
}
fn is_beta(t: &T) -> bool {
    matches!(t, N(App, f, _) if matches!(**f, N(Lam, ..)))
}
fn is_redex(t: &T) -> bool {
    if is_beta(t) {
        return true;
    }
    if let N(Lam, _, b) = t {
        if let N(App, g, z) = &**b {
            return **z == B(0) && !any_leaf(g, 0, &mut |a, k| *a == B(k as u16));
        }
    }
    if let N(App, f, x) = t {
        if **f == S(Symbol::Not) {
            return matches!(&**x, N(App, h, _) if **h == S(Symbol::Not));
        }
    }
    false
}
fn same(m: &M, what: &str, got: &T, t: &T, env: &mut Vec<(u64, T)>) -> Result<(), String> {
    m.steps.set(0);
    let (e, v) = (m.eval(t, env), m.eval(got, env));
    let over = |r: &Result<(u64, T), String>| matches!(r, Err(x) if x == "budget");
    if over(&e) || over(&v) {
        return Ok(()); // too large to evaluate within the bound
    }
    want(&format!("{} (value and type of {:?})", what, got), v?, e?)
}

fn checks(b: &mut Bench, t: &T, ctx: &[T], salt: u64) {
    let nt = sub_nodes(t, &mut |x| is_redex(x));
    let is_bool = model(salt).eval(t, &mut ctx.iter().map(|a| (0, a.clone())).collect()).map(|x| x.1) == Ok(bool_());
    let env = |salt: u64, ctx: &[T]| -> Vec<(u64, T)> {
        ctx.iter().enumerate().map(|(i, a)| (Rng::new(salt + i as u64).next() % size_of(a), a.clone())).collect()
    };
    b.case("normalize.term", &(t.clone(), ctx.to_vec(), salt), nt, |(t, ctx, salt)| {
        let real = build(t);
        let r = norm::normalize_term(&real);
        let got = read(&r);
        for s in 0..3 {
            same(&model(salt + s), "normalize_term", &got, t, &mut env(salt + s, ctx))?;
        }
        ensure("no rule applies to the result", !sub_nodes(&got, &mut |x| is_redex(x)))?;
        want("normalizing again", read(&norm::normalize_term(&r)), got.clone())?;
        let r = norm::beta_reduce_subterms(&real);
        let got = read(&r);
        for s in 0..3 {
            same(&model(salt + s), "beta_reduce_subterms", &got, t, &mut env(salt + s, ctx))?;
        }
        ensure("no beta redex in the result", !sub_nodes(&got, &mut |x| is_beta(x)))?;
        want("reducing again", read(&norm::beta_reduce_subterms(&r)), got)
    });
    if is_bool {
        b.case("normalize.clause_term", &(t.clone(), ctx.to_vec(), salt), nt, |(t, ctx, salt)| {
            let real = build(t);
            for s in 0..3 {
                let m = model(salt + s);
                let env = &mut env(salt + s, ctx);
                same(&m, "normalize_clause_term", &read(&norm::normalize_clause_term(&real)), t, env)?;
                for p in [false, true] {
                    let signed = |x: &T, p: bool| if p { x.clone() } else { not(x.clone()) };
                    same(&m, "normalize_clause_term_with_polarity", &read(&norm::normalize_clause_term_with_polarity(&real, p)), &signed(t, p), env)?;
                    let (x, q) = norm::normalize_signed_clause_term(&real, p);
                    same(&m, "normalize_signed_clause_term", &signed(&read(&x), q), &signed(t, p), env)?;
                }
            }
            Ok(())
        });
    }
    if ctx.is_empty() {
        b.case("normalize.clause", &(t.clone(), salt), nt, |(t, salt)| {
            let lit = |p: bool, l: &T, r: &T| Literal { positive: p, left: build(l), right: build(r) };
            let other = app(c(30), t.clone());
            let lits = vec![lit(salt % 2 == 0, t, &c(1)), lit(salt % 3 == 0, &other, t), lit(true, &c(2), &other)];
            let types: Vec<T> = (0..VARS).map(var_type).collect();
            let context = LocalContext::from_types(types.iter().map(build).collect());
            let clause = Clause::from_literals_unnormalized(lits.clone(), &context);
            for (what, f, g) in [
                ("normalize_clause_subterms", norm::normalize_clause_subterms as fn(&Clause) -> Clause, norm::normalize_term as fn(&crate::kernel::term::Term) -> crate::kernel::term::Term),
                ("beta_reduce_clause_subterms", norm::beta_reduce_clause_subterms, norm::beta_reduce_subterms),
            ] {
                let got: Vec<(bool, T, T)> = f(&clause).literals.iter().map(|l| (l.positive, read(&l.left), read(&l.right))).collect();
                let e: Vec<(bool, T, T)> = clause.literals.iter().map(|l| (l.positive, read(&g(&l.left)), read(&g(&l.right)))).collect();
                want(what, got, e)?;
            }
            Ok(())
        });
    }
}

pub fn run(b: &mut Bench) {
    b.phase(1.0);
    while b.time_left() {
        let mut ctx: Vec<T> = vec![];
        if b.rng.chance(1, 3) {
            for _ in 0..b.rng.below(3) {
                let t = small_type(&mut b.rng);
                ctx.push(t);
            }
        }
        let t = if b.rng.chance(2, 3) { bool_() } else { small_type(&mut b.rng) };
        let fuel = 1 + b.rng.below(9);
        let t = gen(&mut b.rng, &t, &mut ctx, fuel);
        if size(&t) > 80 {
            continue;
        }
        let salt = b.rng.next() >> 8;
        checks(b, &t, &ctx, salt);
    }
}
