//! C01: the flat form of a term denotes exactly the tree it was built from.
use super::base::*;
use super::terms::*;
use super::terms::{K::*, T::*};
use crate::kernel::atom::Atom;
use crate::kernel::symbol::Symbol;
use crate::kernel::term::Term;
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};

fn hash<T: Hash>(t: &T) -> u64 {
    let mut h = DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

fn spine(t: &T) -> (T, Vec<T>) {
    let mut args = vec![];
    let mut cur = t.clone();
    while let N(App, l, r) = &cur {
        args.push((**r).clone());
        let next = (**l).clone();
        cur = next;
    }
    args.reverse();
    (cur, args)
}

fn round_trip(b: &mut Bench, t: &T) {
    let big = size(t) > 1;
    b.case("term.roundtrip", t, big, |t| {
        let x = build(t);
        want("decompose after build", read(&x), t.clone())?;
        want("decompose of an owned copy", read(&x.as_ref().to_owned()), t.clone())?;
        ensure("structure is valid", x.validate_structure_impl())?;
        want("is_atomic", x.is_atomic(), size(t) == 1)?;
        want("equal terms", x.clone() == build(t), true)
    });
    b.case("term.queries", t, big, |t| {
        let x = build(t);
        let r = x.as_ref();
        let (h, args) = spine(t);
        let mut d = t;
        while let N(_, l, _) = d {
            d = l;
        }
        want("get_head_atom", atom_leaf(x.get_head_atom()), d.clone())?;
        want("args", x.args().iter().map(read).collect::<Vec<_>>(), args.clone())?;
        want("iter_args", x.iter_args().map(|a| read_ref(&a)).collect::<Vec<_>>(), args.clone())?;
        if args.is_empty() {
            want("num_args", x.num_args() == 0, size(t) == 1)?;
        }
        want("split_application_multi", r.split_application_multi().map(|(h, a)| (read(&h), a.iter().map(read).collect::<Vec<_>>())),
            if args.is_empty() { None } else { Some((h.clone(), args.clone())) })?;
        want("has_args", x.has_args(), !args.is_empty())?;
        want("is_application", r.is_application(), !args.is_empty())?;
        let two = |o: Option<(crate::kernel::term::TermRef, crate::kernel::term::TermRef)>| o.map(|(a, b)| (read_ref(&a), read_ref(&b)));
        let exp = |k: K| match t { N(j, l, r) if *j == k => Some(((**l).clone(), (**r).clone())), _ => None };
        want("split_application", two(r.split_application()), exp(App))?;
        want("split_pi", two(r.split_pi()), exp(Pi))?;
        want("split_lambda", two(r.split_lambda()), exp(Lam))?;
        want("split_forall", two(r.split_forall()), exp(All))?;
        want("split_exists", two(r.split_exists()), exp(Ex))?;
        want("is_pi", r.is_pi(), exp(Pi).is_some())?;
        want("is_lambda", r.is_lambda(), exp(Lam).is_some())?;
        want("is_forall", r.is_forall(), exp(All).is_some())?;
        want("is_exists", r.is_exists(), exp(Ex).is_some())?;
        want("is_variable", x.is_variable(), matches!(t, F(_) | B(_)))?;
        want("atomic_variable", x.atomic_variable(), if let F(i) = t { Some(*i) } else { None })?;
        want("as_type_atom", r.as_type_atom(), if let S(Symbol::Type(i)) = t { Some(*i) } else { None })?;
        want("as_typeclass", r.as_typeclass(), if let S(Symbol::Typeclass(i)) = t { Some(*i) } else { None })?;
        want("is_bool_type", r.is_bool_type(), *t == S(Symbol::Bool))?;
        want("is_type0", r.is_type0(), *t == S(Symbol::Type0))?;
        let kind = |t: &T| matches!(t, S(Symbol::Type0) | S(Symbol::Typeclass(_)));
        want("is_type_param_kind", r.is_type_param_kind(), kind(t))?;
        let mut k = 0;
        let mut cur = t.clone();
        while let N(Pi, l, o) = &cur {
            if !kind(l) {
                break;
            }
            k += 1;
            let next = (**o).clone();
            cur = next;
        }
        want("count_type_params", r.count_type_params(), k)?;
        let mut a = vec![];
        atoms(t, &mut a);
        want("iter_atoms", x.iter_atoms().map(atom_leaf).collect::<Vec<_>>(), a.clone())?;
        want("atom_count", x.atom_count() as usize, a.iter().filter(|a| !matches!(a, S(Symbol::True) | S(Symbol::False))).count())?;
        want("has_scoped_constant", x.has_scoped_constant(), a.iter().any(|a| matches!(a, S(Symbol::ScopedConstant(_)))))?;
        want("get_head_term", read(&x.get_head_term()), d.clone())
    });
    b.case("term.constructors", t, big, |t| {
        let (h, args) = spine(t);
        let av: Vec<Term> = args.iter().map(build).collect();
        let x = build(t);
        want("apply", build(&h).apply(&av) == x, true)?;
        if let S(_) | F(_) | B(_) = h {
            want("Term::new", Term::new(leaf_atom(&h), av.clone()) == x, true)?;
        }
        let mut sp = vec![build(&h)];
        sp.extend(av.clone());
        want("from_spine", Term::from_spine(sp) == x, true)?;
        if !av.is_empty() {
            want("application_multi", Term::application_multi(build(&h), av.clone()) == x, true)?;
            want("type_application", Term::type_application(build(&h), av.clone()) == x, true)?;
        }
        let l = |k: K| -> Option<(Vec<T>, T)> {
            let mut v = vec![];
            let mut cur = t.clone();
            while let N(j, l, o) = &cur {
                if *j != k {
                    break;
                }
                v.push((**l).clone());
                let next = (**o).clone();
                cur = next;
            }
            Some((v, cur))
        };
        let (v, body) = l(Lam).unwrap();
        want("lambda_multi", Term::lambda_multi(v.iter().map(build).collect(), build(&body)) == x, true)?;
        let (v, body) = l(All).unwrap();
        want("forall_multi", Term::forall_multi(v.iter().map(build).collect(), build(&body)) == x, true)?;
        let (v, body) = l(Ex).unwrap();
        want("exists_multi", Term::exists_multi(v.iter().map(build).collect(), build(&body)) == x, true)
    });
}

pub fn run(b: &mut Bench) {
    let gen = Gen { frees: vec![0], bounds: vec![0], symbols: vec![g(0, 0), S(Symbol::True), S(Symbol::Type0)], kinds: KINDS.to_vec() };
    b.phase(0.3);
    for k in 0..3 {
        for t in gen.all(k) {
            round_trip(b, &t);
            if !b.time_left() {
                break;
            }
        }
    }
    let bs = |s| S(s);
    for (name, got, exp) in [
        ("true", Term::new_true(), bs(Symbol::True)),
        ("false", Term::new_false(), bs(Symbol::False)),
        ("bool_type", Term::bool_type(), bs(Symbol::Bool)),
        ("type_sort", Term::type_sort(), bs(Symbol::Type0)),
        ("bool_type_ref", Term::bool_type_ref().clone(), bs(Symbol::Bool)),
        ("type_sort_ref", Term::type_sort_ref().clone(), bs(Symbol::Type0)),
    ] {
        b.case("term.constants", &name, true, |_| want(name, read(&got), exp.clone()));
    }
    // equality of terms is equality of trees
    b.phase(0.2);
    let pool: Vec<T> = gen.all(1);
    for x in &pool {
        for y in &pool {
            if !b.time_left() {
                break;
            }
            b.case("term.equality", &(x.clone(), y.clone()), x != y, |(x, y)| {
                let (a, c) = (build(x), build(y));
                want("==", a == c, x == y)?;
                want("hash agrees", a != c || hash(&a) == hash(&c), true)
            });
        }
    }
    b.phase(0.2);
    let w = Gen::wide();
    while b.time_left() {
        let inner = b.rng.below(14);
        let t = w.tree(&mut b.rng, inner);
        round_trip(b, &t);
        let (p, q) = (w.tree(&mut b.rng, 2), w.tree(&mut b.rng, 2));
        b.case("term.logic", &(p.clone(), q.clone(), t.clone()), true, |(p, q, t)| {
            let s = |x| S(x);
            want("not", read(&Term::not(build(p))), app(s(Symbol::Not), p.clone()))?;
            want("and", read(&Term::and(build(p), build(q))), app(app(s(Symbol::And), p.clone()), q.clone()))?;
            want("or", read(&Term::or(build(p), build(q))), app(app(s(Symbol::Or), p.clone()), q.clone()))?;
            want("eq", read(&Term::eq(build(t), build(p), build(q))), app(app(app(s(Symbol::Eq), t.clone()), p.clone()), q.clone()))
        });
    }
    // large terms: around the sizes at which an offset or a counter could wrap
    b.phase(0.3);
    let sizes: &[usize] = if b.thorough { &[100, 254, 255, 256, 257, 1000, 5000, 16383, 16384, 20000, 30000] } else { &[100, 255, 256, 300, 5000] };
    for m in sizes {
        let t = wide_app(*m);
        let m = *m;
        b.case("term.large", &m, true, |_| {
            let x = build(&t);
            want("round trip of a wide application", read(&x) == t, true)?;
            want("args", x.args().len(), m)?;
            let (h, a) = x.as_ref().split_application_multi().unwrap();
            want("split_application_multi", (read(&h), a.len()), (spine(&t).0, m))?;
            want("num_args", x.num_args(), m)
        });
    }
    for (k, m) in [(App, 65533usize), (Pi, 65533), (Lam, 65533), (All, 65533), (Ex, 65533), (App, 65535), (Pi, 65535), (Lam, 65537), (All, 65535), (Ex, 65535), (App, 65537), (Pi, 131071)] {
        // left child with m components: a right-nested application (cheap to build)
        b.case("term.offset_limit", &(k, m), true, |_| {
            let r = aborts(|| {
                let t = balanced(m);
                let rhs = Term::atom(Atom::FreeVariable(7));
                match k {
                    App => t.apply(&[rhs]),
                    Pi => Term::pi(t, rhs),
                    Lam => Term::lambda(t, rhs),
                    All => Term::forall(t, rhs),
                    Ex => Term::exists(t, rhs),
                }
            });
            match r {
                None => ensure("a term that fits is built", m > 65533),
                Some(x) => {
                    ensure("valid structure", x.validate_structure_impl())?;
                    match read_top(&x) {
                        Some((j, llen, r)) => {
                            want("kind", j, k)?;
                            want("left size", llen, m)?;
                            want("right child", r, F(7))
                        }
                        None => Err("atom".into()),
                    }
                }
            }
        });
        if !b.time_left() && !b.thorough {
            break;
        }
    }
}

/// A term with exactly m components (m odd).
fn balanced(m: usize) -> Term {
    if m == 1 {
        return Term::atom(Atom::Symbol(Symbol::True));
    }
    let mut a = (m - 1) / 2;
    if a % 2 == 0 {
        a += 1;
    }
    let left = balanced(m - 1 - a);
    left.apply(&[if a == m - 1 - a { left.clone() } else { balanced(a) }])
}

fn read_top(x: &Term) -> Option<(K, usize, T)> {
    use crate::kernel::term::Decomposition as D;
    let (k, l, r) = match x.as_ref().decompose() {
        D::Atom(_) => return None,
        D::Application(l, r) => (App, l, r),
        D::Pi(l, r) => (Pi, l, r),
        D::Lambda(l, r) => (Lam, l, r),
        D::ForAll(l, r) => (All, l, r),
        D::Exists(l, r) => (Ex, l, r),
    };
    Some((k, l.to_owned().profile_component_len(), if r.is_atomic() { read_ref(&r) } else { B(9) }))
}
