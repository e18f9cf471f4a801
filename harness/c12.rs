//! C12: injectivity, extensionality and boolean reduction conclude only what follows.
use super::base::*;
use super::models::*;
use super::terms::*;
use super::terms::{K::*, T::*};
use crate::elaborator::names::ConstantName;
use crate::kernel::clause::{BooleanReductionKind as Kind, Clause, NormalizedClauseTrace};
use crate::kernel::kernel_context::KernelContext;
use crate::kernel::literal::Literal;
use crate::kernel::local_context::LocalContext;
use crate::kernel::symbol::Symbol;
use crate::kernel::symbol_table::NewConstantType;
use crate::kernel::term_normalization::normalize_clause_subterms;
use crate::module::ModuleId;
use std::collections::HashMap;

type L = (bool, T, T);
const KINDS12: [Kind; 25] = [
    Kind::FalseLiteralElimination, Kind::IteSimplifyLeft, Kind::IteSimplifyRight, Kind::IteSplitLeftThenBranch,
    Kind::IteSplitLeftElseBranch, Kind::IteSplitRightThenBranch, Kind::IteSplitRightElseBranch,
    Kind::FunctionInequalityToExists, Kind::SignedNot, Kind::BooleanEqToEquality, Kind::PositiveForallOpen,
    Kind::PositiveExistsObviousWitness, Kind::PositiveExistsOpen, Kind::NegatedForallToExists,
    Kind::NegatedExistsOpen, Kind::PositiveAndLeft, Kind::PositiveAndRight, Kind::NegativeAnd, Kind::PositiveOr,
    Kind::NegativeOrLeft, Kind::NegativeOrRight, Kind::BooleanEqualityLeftOrNotRight,
    Kind::BooleanEqualityNotLeftOrRight, Kind::BooleanInequalityNotLeftOrNotRight, Kind::BooleanInequalityLeftOrRight,
];
fn view(x: &Literal) -> L {
    (x.positive, read(&x.left), read(&x.right))
}
fn make(x: &L) -> Literal {
    Literal { positive: x.0, left: build(&x.1), right: build(&x.2) }
}
fn views(v: &[Literal]) -> Vec<L> {
    v.iter().map(view).collect()
}
fn context(types: &[T]) -> LocalContext {
    LocalContext::from_types(types.iter().map(build).collect())
}
fn types_of(c: &LocalContext) -> Vec<T> {
    (0..c.len()).map(|i| c.get_var_type(i).map(read).unwrap_or(B(9999))).collect()
}
fn ren(t: &T, h: &[u16]) -> T {
    map_leaves(t, 0, &mut |a, _| match a {
        F(i) => F(h.get(*i as usize).copied().unwrap_or(60000)),
        _ => a.clone(),
    })
}
fn lit_vars(x: &L) -> Vec<u16> {
    let mut v = free_vars(&x.1);
    v.extend(free_vars(&x.2));
    v
}
/// The types of the polymorphic constants g(1, i), over their type parameter.
fn schemes() -> Vec<T> {
    let t = |b: bool, k: u16| if b { B(k) } else { d() };
    // T -> T, T -> bool, T -> d -> bool, d -> T, bool, T -> T, T -> bool, T
    vec![
        n(Pi, t(true, 0), t(true, 1)), n(Pi, t(true, 0), t(true, 1)),
        n(Pi, t(true, 0), bool_()), n(Pi, t(true, 0), bool_()),
        n(Pi, t(true, 0), n(Pi, d(), bool_())), n(Pi, t(true, 0), n(Pi, d(), bool_())),
        n(Pi, t(true, 0), n(Pi, t(true, 1), bool_())), n(Pi, t(true, 0), n(Pi, t(true, 1), bool_())),
        bool_(), bool_(), d(), d(), B(0), B(0),
    ]
}
fn poly(i: u16) -> T {
    g(1, i)
}
fn kernel() -> KernelContext {
    let mut k = KernelContext::new();
    for i in 0..VARS {
        let name = ConstantName::unqualified(ModuleId(1), &format!("c{}", i));
        let s = k.symbol_table.add_constant(name, NewConstantType::Local, build(&var_type(i)));
        assert!(s == Symbol::ScopedConstant(i));
    }
    for (i, t) in schemes().iter().enumerate() {
        let name = ConstantName::unqualified(ModuleId(1), &format!("g{}", i));
        let s = k.symbol_table.add_constant(name, NewConstantType::Global, build(&n(Pi, S(Symbol::Type0), t.clone())));
        assert!(s == Symbol::GlobalConstant(ModuleId(1), i as u16));
    }
    k
}

// ------------------------------------------------------------- models
/// What a variable stands for: a type, or an element of its type.
#[derive(Clone, Debug)]
enum V {
    Ty(T),
    El(u64),
}
type A = HashMap<u16, V>;
fn universe() -> Vec<T> {
    vec![d(), bool_()]
}
fn put_types(t: &T, e: &A) -> T {
    map_leaves(t, 0, &mut |a, _| match a {
        F(i) => match e.get(i) {
            Some(V::Ty(t)) => t.clone(),
            _ => a.clone(),
        },
        _ => a.clone(),
    })
}
/// The value of a literal; sides that still need a type argument are equal if they are at all types.
fn truth(x: &L, types: &[T], e: &A, salt: u64) -> Result<bool, String> {
    let mut m = model(salt);
    m.poly = schemes();
    for (i, v) in e {
        if let V::El(v) = v {
            m.given.insert(*i, (*v, put_types(&types[*i as usize], e)));
        }
    }
    let (l, r) = (put_types(&x.1, e), put_types(&x.2, e));
    let is_type = |t: &T| matches!(t, S(Symbol::Bool | Symbol::Type(_)) | N(Pi, ..));
    if is_type(&l) && is_type(&r) {
        return Ok((l == r) == x.0);
    }
    let bare = |t: &T| matches!(t, S(Symbol::GlobalConstant(..)));
    if bare(&l) || bare(&r) {
        for t in universe() {
            let (a, at) = m.eval(&app(l.clone(), t.clone()), &mut vec![])?;
            let (z, zt) = m.eval(&app(r.clone(), t.clone()), &mut vec![])?;
            if at != zt {
                return Err(format!("sides of different types: {:?}", x));
            }
            if a != z {
                return Ok(!x.0);
            }
        }
        return Ok(x.0);
    }
    let (a, at) = m.eval(&l, &mut vec![])?;
    let (z, zt) = m.eval(&r, &mut vec![])?;
    if at != zt {
        return Err(format!("sides of different types: {:?}", x));
    }
    Ok((a == z) == x.0)
}
fn holds(c: &[L], types: &[T], e: &A, salt: u64) -> Result<bool, String> {
    let mut err = None;
    for x in c {
        match truth(x, types, e, salt) {
            Ok(true) => return Ok(true),
            Ok(false) => {}
            Err(m) => err = Some(m),
        }
    }
    err.map_or(Ok(false), Err)
}
/// The variables, after the variables their types need.
fn needed(v: &[u16], types: &[T], out: &mut Vec<u16>) {
    for i in v {
        if !out.contains(i) {
            if let Some(t) = types.get(*i as usize) {
                needed(&free_vars(t), types, out);
            }
            out.push(*i);
        }
    }
}
fn choices(i: u16, types: &[T], e: &A) -> Vec<V> {
    match &types[i as usize] {
        S(Symbol::Type0) => universe().into_iter().map(V::Ty).collect(),
        t => (0..size_of(&put_types(t, e))).map(V::El).collect(),
    }
}
/// Whether c holds for all values of the variables.
fn all_hold(c: &[L], types: &[T], vars: &[u16], e: &mut A, salt: u64, fuel: &mut u32) -> Result<bool, String> {
    let Some((i, rest)) = vars.split_first() else {
        if *fuel == 0 {
            return Err("budget".into());
        }
        *fuel -= 1;
        return holds(c, types, e, salt);
    };
    for v in choices(*i, types, e) {
        e.insert(*i, v);
        let r = all_hold(c, types, rest, e, salt, fuel);
        e.remove(i);
        if !r? {
            return Ok(false);
        }
    }
    Ok(true)
}
/// In a few models, where the premise holds for all values of the variables the conclusion does not have, so does the conclusion.
/// Both have the variables of one context.
fn follows(premise: &[L], conclusion: &[L], types: &[T], rng: &mut Rng, rounds: u32) -> Result<(), String> {
    let mut kept = vec![];
    needed(&conclusion.iter().flat_map(lit_vars).collect::<Vec<_>>(), types, &mut kept);
    ensure(&format!("the variables of {:?} have types", conclusion), kept.iter().all(|i| (*i as usize) < types.len()))?;
    let mut all = kept.clone();
    needed(&premise.iter().flat_map(lit_vars).collect::<Vec<_>>(), types, &mut all);
    let gone: Vec<u16> = all[kept.len()..].to_vec();
    for _ in 0..rounds {
        let salt = rng.next() >> 8;
        let mut e = A::new();
        for i in &kept {
            let v = rng.pick(&choices(*i, types, &e)).clone();
            e.insert(*i, v);
        }
        match holds(conclusion, types, &e, salt) {
            Ok(true) => continue,
            Err(m) if m == "budget" => continue,
            Err(m) => return Err(format!("the conclusion {:?}: {}", conclusion, m)),
            Ok(false) => {}
        }
        match all_hold(premise, types, &gone, &mut e, salt, &mut 300) {
            Ok(false) => {}
            Err(m) if m == "budget" => {}
            Err(m) => return Err(format!("the premise: {}", m)),
            Ok(true) => return Err(format!("{:?} does not follow: model {}, variables {:?}", conclusion, salt, e)),
        }
    }
    Ok(())
}
fn trace_follows(premise: &[L], types: &[T], t: &NormalizedClauseTrace, rng: &mut Rng, rounds: u32) -> Result<(), String> {
    let pre = types_of(&t.pre_norm_context);
    ensure("the old variables keep their types", pre.len() >= types.len() && pre[..types.len()] == *types)?;
    let h = &t.var_ids;
    ensure("no repeated variable", (0..h.len()).all(|i| !h[..i].contains(&h[i])))?;
    let post = types_of(t.clause.get_local_context());
    want("variables", post.len(), h.len())?;
    for (k, ty) in post.iter().enumerate() {
        want("type", Some(&ren(ty, h)), pre.get(h[k] as usize))?;
    }
    let conclusion: Vec<L> = views(&t.clause.literals).iter().map(|x| (x.0, ren(&x.1, h), ren(&x.2, h))).collect();
    follows(premise, &conclusion, &pre, rng, rounds)
}
fn same(a: &NormalizedClauseTrace, b: &NormalizedClauseTrace) -> bool {
    a.clause == b.clause && a.var_ids == b.var_ids && types_of(&a.pre_norm_context) == types_of(&b.pre_norm_context)
}

/// Every conclusion from a clause as it is given.
fn conclusions(b: &mut Bench, k: &KernelContext, input: Vec<L>, types: Vec<T>, witness: T, contract: &str, rounds: u32) {
    let seed = b.rng.next();
    b.case(contract, &(input, types, witness), true, |(input, types, witness)| {
        let rng = &mut Rng::new(seed);
        let ctx = context(types);
        let c = Clause::from_literals_unnormalized(input.iter().map(make).collect(), &ctx);
        let rest = [("as normalized", normalize_clause_subterms(&c).normalized_preserving_locals())].into_iter().chain((!redex(input)).then_some(("as given", c)));
        for (how, c) in rest {
            from_clause(&c, &views(&c.literals), types, witness, k, rng, rounds).map_err(|e| format!("{}: {}", how, e))?;
        }
        Ok(())
    });
}
fn redex(input: &[L]) -> bool {
    input.iter().any(|x| [&x.1, &x.2].into_iter().any(|t| matches!(spine(t), (N(..), v) if !v.is_empty())))
}
fn from_clause(c: &Clause, input: &[L], types: &[T], witness: &T, k: &KernelContext, rng: &mut Rng, rounds: u32) -> Result<(), String> {
        let ctx = context(types);
        let found = c.find_boolean_reduction_kinds_with_locations_with_options(k, true);
        for (kind, i, t) in &found {
            trace_follows(input, types, t, rng, rounds).map_err(|e| format!("{} at {}: {}", kind.as_str(), i, e))?;
            let at = c.boolean_reduction_at_with_options(*kind, *i, k, true);
            ensure(&format!("{} at {} is found at its place", kind.as_str(), i), at.is_some_and(|x| same(&x, t)))?;
        }
        let all = c.find_boolean_reductions(k);
        ensure("one list", all.len() == found.len() && all.iter().zip(&found).all(|(x, y)| same(x, &y.2)))?;
        ensure("one list of clauses", c.boolean_reductions(k).iter().eq(found.iter().map(|x| &x.2.clause)))?;
        for kind in KINDS12 {
            for i in 0..=input.len() {
                if found.iter().any(|x| x.0 == kind && x.1 == i) {
                    continue;
                }
                if let Some(t) = c.boolean_reduction_at_with_options(kind, i, k, true) {
                    trace_follows(input, types, &t, rng, rounds).map_err(|e| format!("{} alone at {}: {}", kind.as_str(), i, e))?;
                }
            }
        }
        for (kind, x) in [("proof search", c.positive_exists_reduction(k)), ("certificate", c.positive_exists_witness_reduction(k))] {
            let Some(x) = x else { continue };
            let (i, ty, body) = (x.literal_index, read(&x.binder_type), read(&x.body));
            want(&format!("existential for {}", kind), input.get(i), Some(&(true, n(Ex, ty.clone(), body.clone()), S(Symbol::True))))?;
            ensure("only literal", input.len() == 1)?;
            if ty == d() {
                let t = c.instantiate_positive_exists_reduction(&x, build(witness));
                let opened = app(n(Lam, ty, body), witness.clone());
                trace_follows(&[(true, opened, S(Symbol::True))], types, &t, rng, rounds).map_err(|e| format!("instantiated existential: {}", e))?;
            }
        }
        let found = c.find_injectivities();
        for lits in &found {
            follows(input, &views(lits), types, rng, rounds).map_err(|e| format!("injectivity: {}", e))?;
        }
        let clauses: Vec<Clause> = found.into_iter().map(|x| Clause::new(x, &ctx)).filter(|x| !x.is_tautology()).collect();
        ensure("injectivities", clauses == c.injectivities())?;
        if let Some(lits) = c.find_extensionality(k) {
            // the variables of the context stay
            follows(input, &views(&lits), types, rng, rounds * 4).map_err(|e| format!("extensionality: {}", e))?;
        }
        Ok(())
}

// ------------------------------------------------------------- generators
fn fits(v: &[L]) -> bool {
    v.iter().all(|l| size(&l.1) + size(&l.2) <= 60)
}
/// A term without redexes that would keep a rule from its shape.
fn prop(r: &mut Rng, fuel: usize) -> T {
    let f = fuel.saturating_sub(1);
    match r.below(9) {
        0 => bin(Symbol::And, prop(r, f), prop(r, f)),
        1 => bin(Symbol::Or, prop(r, f), prop(r, f)),
        2 => not(prop(r, f)),
        3 | 4 => {
            let a = small_type(r);
            let body = gen(r, &bool_(), &mut vec![a.clone()], f);
            n(if r.chance(1, 2) { All } else { Ex }, a, body)
        }
        5 => {
            // an obvious witness, or nearly so
            let a = small_type(r);
            let mut ctx = if r.chance(1, 3) { vec![a.clone()] } else { vec![] };
            let w = gen(r, &a, &mut ctx, f);
            let w = if ctx.is_empty() { shift(&w, 0, 1).unwrap() } else { w };
            n(Ex, a.clone(), if r.chance(1, 2) { eq(a, B(0), w) } else { eq(a, w, B(0)) })
        }
        6 => {
            let a = small_type(r);
            eq(a.clone(), gen(r, &a, &mut vec![], f), gen(r, &a, &mut vec![], f))
        }
        _ => gen(r, &bool_(), &mut vec![], fuel),
    }
}
fn lit(r: &mut Rng, fuel: usize) -> L {
    let p = r.chance(1, 2);
    match r.below(8) {
        0..=3 => (p, prop(r, fuel), S(Symbol::True)),
        4 => (p, prop(r, fuel / 2), prop(r, fuel / 2)),
        5 => {
            // one head, nearly the same arguments
            let i = *r.pick(&[5u16, 7, 2, 3, 6]);
            let mut t = var_type(i);
            let (mut x, mut y) = (c(i), c(i));
            let m = 1 + r.below(3);
            for _ in 0..m {
                let N(Pi, a, z) = &t else { break };
                let v = gen(r, a, &mut vec![], fuel / 3);
                let w = if r.chance(1, 2) { v.clone() } else { gen(r, a, &mut vec![], fuel / 3) };
                x = app(x, v);
                y = app(y, w);
                t = (**z).clone();
            }
            (r.chance(1, 5), x, y)
        }
        6 => {
            let s = *r.pick(&[Symbol::And, Symbol::Or, Symbol::Eq, Symbol::Ite, Symbol::Not]);
            let mut v: Vec<T> = vec![];
            let a = small_type(r);
            let most = match s {
                Symbol::Eq => {
                    v.push(a.clone());
                    3
                }
                Symbol::Ite => {
                    v.push(a.clone());
                    v.push(prop(r, fuel / 3));
                    4
                }
                Symbol::Not => 1,
                _ => 2,
            };
            let at = if s == Symbol::Eq || s == Symbol::Ite { a } else { bool_() };
            while v.len() < most {
                v.push(gen(r, &at, &mut vec![], fuel / 3));
            }
            let mut w = v.clone();
            for i in 0..v.len() {
                if at != v[i] && r.chance(1, 3) {
                    let t = if s == Symbol::Ite && i == 1 { bool_() } else { at.clone() };
                    w[i] = gen(r, &t, &mut vec![], fuel / 3);
                }
            }
            let mk = |v: &Vec<T>| v.iter().fold(S(s), |f, x| app(f, x.clone()));
            if s == Symbol::Eq || s == Symbol::Ite {
                w[0] = v[0].clone();
            }
            (p && r.chance(1, 2), mk(&v), mk(&w))
        }
        _ => {
            let t = small_type(r);
            (p, gen(r, &t, &mut vec![], fuel / 2), gen(r, &t, &mut vec![], fuel / 2))
        }
    }
}
/// A variable of the given type, or a small closed term of it.
fn leaf_of(r: &mut Rng, t: &T, types: &[T]) -> Option<T> {
    let mut v: Vec<T> = (0..types.len()).filter(|i| types[*i] == *t).map(|i| F(i as u16)).collect();
    if r.chance(1, 6) {
        v.extend((0..VARS).filter(|i| var_type(*i) == *t).map(c));
        if *t == S(Symbol::Type0) {
            v.extend(universe());
        }
    }
    if v.is_empty() { None } else { Some(r.pick(&v).clone()) }
}
/// A constant applied to some arguments, mostly variables, and its type.
fn applied(r: &mut Rng, head: T, ty: T, types: &[T], most: usize) -> Option<(Vec<T>, T)> {
    let mut t = ty;
    let mut args = vec![];
    let _ = head;
    for _ in 0..most {
        let N(Pi, a, z) = &t else { break };
        let x = leaf_of(r, a, types)?;
        t = at_type_open(z, &x);
        args.push(x);
    }
    Some((args, t))
}
/// The body of a Pi type with the argument put in; the arguments have no bound variables.
fn at_type_open(body: &T, x: &T) -> T {
    map_leaves(body, 0, &mut |a, d| match a {
        B(i) if *i as u32 == d => x.clone(),
        B(i) if *i as u32 > d => B(*i - 1),
        _ => a.clone(),
    })
}
fn spread(h: &T, v: &[T]) -> T {
    v.iter().fold(h.clone(), |f, x| app(f, x.clone()))
}
fn polymorphic(b: &mut Bench, k: &KernelContext) {
    let r = &mut b.rng;
    let mut types = vec![S(Symbol::Type0)];
    for _ in 0..2 + r.below(4) {
        let t = match r.below(9) {
            0 => S(Symbol::Type0),
            1..=3 => F(0),
            4 | 5 => d(),
            6 => bool_(),
            7 => fun(&d(), &d()),
            _ => fun(&F(0), &bool_()),
        };
        types.push(t);
    }
    let schemes = schemes();
    let heads: Vec<(T, T)> = (0..schemes.len() as u16)
        .map(|i| (poly(i), n(Pi, S(Symbol::Type0), schemes[i as usize].clone())))
        .chain((0..VARS).map(|i| (c(i), var_type(i))))
        .collect();
    let (h1, t1) = r.pick(&heads).clone();
    let (h2, t2) = if r.chance(3, 5) {
        let v: Vec<_> = heads.iter().filter(|x| x.1 == t1 && x.0 != h1).cloned().collect();
        r.pick(&v).clone()
    } else {
        r.pick(&heads).clone()
    };
    let most = r.below(6);
    let Some((a1, r1)) = applied(r, h1.clone(), t1.clone(), &types, most) else { return };
    let most = r.below(6);
    let Some((mut a2, r2)) = applied(r, h2.clone(), t2.clone(), &types, if t1 == t2 { a1.len() } else { most }) else { return };
    let mut result = r2;
    if r.chance(4, 5) {
        // the same arguments at the end
        for j in 1..=a1.len().min(a2.len()) {
            if r.chance(7, 8) {
                let m = a2.len();
                a2[m - j] = a1[a1.len() - j].clone();
            }
        }
        let mut t = t2;
        for x in &a2 {
            let N(Pi, _, z) = &t else { return };
            t = at_type_open(z, x);
        }
        result = t;
    }
    if r1 != result || r1 == S(Symbol::Type0) {
        return;
    }
    let mut input = vec![];
    for _ in 0..r.below(3) {
        let i = r.below(types.len());
        let t = types[i].clone();
        if t == S(Symbol::Type0) {
            continue;
        }
        let Some(y) = leaf_of(r, &t, &types) else { continue };
        let x = if t == fun(&F(0), &bool_()) && r.chance(1, 2) {
            let Some(z) = leaf_of(r, &F(0), &types) else { continue };
            (r.chance(1, 2), app(F(i as u16), z), S(Symbol::True))
        } else {
            (r.chance(1, 2), F(i as u16), y)
        };
        input.push(x);
    }
    let at = r.below(input.len() + 1);
    input.insert(at, (r.chance(5, 6), spread(&h1, &a1), spread(&h2, &a2)));
    // everything has to be well typed
    let mut e = A::new();
    let mut order = vec![];
    needed(&(0..types.len() as u16).collect::<Vec<_>>(), &types, &mut order);
    for i in &order {
        let v = choices(*i, &types, &e)[0].clone();
        e.insert(*i, v);
    }
    for x in &input {
        if truth(x, &types, &e, 1).is_err() {
            return;
        }
        for s in [&x.1, &x.2] {
            if build(s).checked_type_with_context(&context(&types), k).is_err() {
                return;
            }
        }
    }
    conclusions(b, k, input, types, c(0), "clause.polymorphic_conclusions", 6);
}

pub fn run(b: &mut Bench) {
    ITE.with(|x| x.set(true));
    let k = kernel();
    let types: Vec<T> = (0..VARS).map(var_type).collect();
    b.phase(0.6);
    while b.time_left() {
        let mut v: Vec<L> = vec![];
        for _ in 0..*b.rng.pick(&[1, 1, 1, 1, 2, 2, 3, 4]) {
            let fuel = b.rng.below(7);
            v.push(lit(&mut b.rng, fuel));
        }
        if b.rng.chance(2, 3) {
            v.sort_by_key(|x| x.0);
        }
        let w = gen(&mut b.rng, &d(), &mut vec![], 2);
        if fits(&v) {
            conclusions(b, &k, v, types.clone(), w, "clause.conclusions", 5);
        }
    }
    b.phase(0.4);
    while b.time_left() {
        polymorphic(b, &k);
    }
}
