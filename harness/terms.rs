//! Mathematical trees for terms, generators for them, and the reference functions that the
//! executable contracts of the term layer are written in.
use super::base::Rng;
use crate::kernel::atom::Atom;
use crate::kernel::symbol::Symbol;
use crate::kernel::term::{Decomposition, Term, TermRef};
use crate::kernel::types::{GroundTypeId, TypeclassId};
use crate::module::ModuleId;
use std::cmp::Ordering;
use std::rc::Rc;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub enum K {
    App,
    Pi,
    Lam,
    All,
    Ex,
}
use K::*;
pub const KINDS: [K; 5] = [App, Pi, Lam, All, Ex];
pub const BINDERS: [K; 4] = [Pi, Lam, All, Ex];

#[derive(Clone, PartialEq, Eq, Hash)]
pub enum T {
    F(u16),
    B(u16),
    S(Symbol),
    N(K, Rc<T>, Rc<T>),
}
use T::*;

impl std::fmt::Debug for T {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        match self {
            F(i) => write!(f, "x{}", i),
            B(i) => write!(f, "b{}", i),
            S(s) => write!(f, "{}", s),
            N(k, l, r) => {
                let name = match k {
                    App => "app",
                    Pi => "pi",
                    Lam => "lam",
                    All => "all",
                    Ex => "ex",
                };
                write!(f, "{}({:?},{:?})", name, l, r)
            }
        }
    }
}

pub fn n(k: K, l: T, r: T) -> T {
    N(k, Rc::new(l), Rc::new(r))
}
pub fn app(l: T, r: T) -> T {
    n(App, l, r)
}
pub fn g(m: u16, i: u16) -> T {
    S(Symbol::GlobalConstant(ModuleId(m), i))
}
pub fn c(i: u16) -> T {
    S(Symbol::ScopedConstant(i))
}
pub fn ty(m: u16, i: u16) -> T {
    S(Symbol::Type(GroundTypeId::new(ModuleId(m), i)))
}
pub fn tc(m: u16, i: u16) -> T {
    S(Symbol::Typeclass(TypeclassId::new(ModuleId(m), i)))
}

pub fn leaf_atom(t: &T) -> Atom {
    match t {
        F(i) => Atom::FreeVariable(*i),
        B(i) => Atom::BoundVariable(*i),
        S(s) => Atom::Symbol(*s),
        N(..) => unreachable!(),
    }
}
pub fn atom_leaf(a: &Atom) -> T {
    match a {
        Atom::FreeVariable(i) => F(*i),
        Atom::BoundVariable(i) => B(*i),
        Atom::Symbol(s) => S(*s),
    }
}

/// The real term for a tree, through the public constructors.
pub fn build(t: &T) -> Term {
    match t {
        N(App, l, r) => build(l).apply(&[build(r)]),
        N(Pi, l, r) => Term::pi(build(l), build(r)),
        N(Lam, l, r) => Term::lambda(build(l), build(r)),
        N(All, l, r) => Term::forall(build(l), build(r)),
        N(Ex, l, r) => Term::exists(build(l), build(r)),
        _ => Term::atom(leaf_atom(t)),
    }
}
/// The tree of a real term, through decompose.
pub fn read_ref(t: &TermRef) -> T {
    match t.decompose() {
        Decomposition::Atom(a) => atom_leaf(a),
        Decomposition::Application(f, a) => n(App, read_ref(&f), read_ref(&a)),
        Decomposition::Pi(f, a) => n(Pi, read_ref(&f), read_ref(&a)),
        Decomposition::Lambda(f, a) => n(Lam, read_ref(&f), read_ref(&a)),
        Decomposition::ForAll(f, a) => n(All, read_ref(&f), read_ref(&a)),
        Decomposition::Exists(f, a) => n(Ex, read_ref(&f), read_ref(&a)),
    }
}
pub fn read(t: &Term) -> T {
    read_ref(&t.as_ref())
}

pub fn size(t: &T) -> usize {
    match t {
        N(_, l, r) => 1 + size(l) + size(r),
        _ => 1,
    }
}
pub fn under(k: K) -> u32 {
    if k == App {
        0
    } else {
        1
    }
}
pub fn atoms(t: &T, out: &mut Vec<T>) {
    match t {
        N(_, l, r) => {
            atoms(l, out);
            atoms(r, out);
        }
        _ => out.push(t.clone()),
    }
}
pub fn free_vars(t: &T) -> Vec<u16> {
    let mut v = vec![];
    atoms(t, &mut v);
    v.iter().filter_map(|a| if let F(i) = a { Some(*i) } else { None }).collect()
}
pub fn has_bound(t: &T) -> bool {
    let mut v = vec![];
    atoms(t, &mut v);
    v.iter().any(|a| matches!(a, B(_)))
}
pub fn subterms(t: &T, out: &mut Vec<T>) {
    out.push(t.clone());
    if let N(_, l, r) = t {
        subterms(l, out);
        subterms(r, out);
    }
}
fn overwrite(t: &T, at: &mut usize, v: &T) -> T {
    if *at == 0 {
        *at = usize::MAX;
        return v.clone();
    }
    *at -= 1;
    match t {
        N(k, l, r) => {
            let l2 = overwrite(l, at, v);
            n(*k, l2, overwrite(r, at, v))
        }
        _ => t.clone(),
    }
}
/// The term with a subterm written over another subterm.
pub fn echo(r: &mut Rng, t: &T) -> T {
    let mut v = vec![];
    subterms(t, &mut v);
    let x = r.pick(&v[1..]).clone();
    overwrite(t, &mut (1 + r.below(v.len() - 1)), &x)
}
/// Map over leaves with the number of enclosing binders (binder bodies only).
pub fn map_leaves(t: &T, d: u32, f: &mut dyn FnMut(&T, u32) -> T) -> T {
    match t {
        N(k, l, r) => {
            let l2 = map_leaves(l, d, f);
            n(*k, l2, map_leaves(r, d + under(*k), f))
        }
        _ => f(t, d),
    }
}
pub fn any_leaf(t: &T, d: u32, f: &mut dyn FnMut(&T, u32) -> bool) -> bool {
    match t {
        N(k, l, r) => any_leaf(l, d, f) || any_leaf(r, d + under(*k), f),
        _ => f(t, d),
    }
}
pub fn rep(t: &T, x: u16, v: &T) -> T {
    map_leaves(t, 0, &mut |a, _| if *a == F(x) { v.clone() } else { a.clone() })
}
/// Adds `by` to every bound variable that points at or above `cut` binders out.
/// None if an index would leave the range of indices.
pub fn shift(t: &T, cut: u32, by: i64) -> Option<T> {
    let mut ok = true;
    let r = map_leaves(t, cut, &mut |a, d| match a {
        B(i) if (*i as u32) >= d => {
            let j = *i as i64 + by;
            if !(0..=65535).contains(&j) {
                ok = false;
                return a.clone();
            }
            B(j as u16)
        }
        _ => a.clone(),
    });
    ok.then_some(r)
}
pub fn depth(t: &T) -> u32 {
    match t {
        N(k, l, r) => depth(l).max(under(*k) + depth(r)),
        _ => 0,
    }
}

// ---------------------------------------------------------------- generators
pub struct Gen {
    pub frees: Vec<u16>,
    pub bounds: Vec<u16>,
    pub symbols: Vec<T>,
    pub kinds: Vec<K>,
}
impl Gen {
    pub fn small() -> Gen {
        Gen { frees: vec![0, 1], bounds: vec![0, 1], symbols: vec![g(0, 0), c(0)], kinds: KINDS.to_vec() }
    }
    pub fn wide() -> Gen {
        let mut symbols: Vec<T> = vec![
            S(Symbol::True), S(Symbol::False), S(Symbol::Not), S(Symbol::And), S(Symbol::Or), S(Symbol::Eq),
            S(Symbol::Ite), S(Symbol::Bool), S(Symbol::Type0),
        ];
        for m in [0u16, 1, 2, 65535] {
            for i in [0u16, 1, 255, 65535] {
                symbols.push(g(m, i));
                symbols.push(ty(m, i));
                symbols.push(tc(m, i));
            }
        }
        for i in [0u16, 1, 2, 65535] {
            symbols.push(c(i));
        }
        Gen { frees: vec![0, 1, 2, 3, 7, 300, 65534, 65535], bounds: vec![0, 1, 2, 3, 65534, 65535], symbols, kinds: KINDS.to_vec() }
    }
    pub fn no_bound(mut self) -> Gen {
        self.bounds.clear();
        self
    }
    pub fn frees(mut self, v: &[u16]) -> Gen {
        self.frees = v.to_vec();
        self
    }
    pub fn bounds(mut self, v: &[u16]) -> Gen {
        self.bounds = v.to_vec();
        self
    }
    pub fn kinds(mut self, v: &[K]) -> Gen {
        self.kinds = v.to_vec();
        self
    }
    pub fn leaves(&self) -> Vec<T> {
        let mut v: Vec<T> = self.frees.iter().map(|i| F(*i)).collect();
        v.extend(self.bounds.iter().map(|i| B(*i)));
        v.extend(self.symbols.iter().cloned());
        v
    }
    pub fn leaf(&self, r: &mut Rng) -> T {
        loop {
            match r.below(3) {
                0 if !self.frees.is_empty() => return F(*r.pick(&self.frees)),
                1 if !self.bounds.is_empty() => return B(*r.pick(&self.bounds)),
                2 if !self.symbols.is_empty() => return r.pick(&self.symbols).clone(),
                _ => {}
            }
        }
    }
    /// A random tree with about `inner` inner nodes, now and then with a subterm repeated.
    pub fn tree(&self, r: &mut Rng, inner: usize) -> T {
        let t = self.fresh(r, inner);
        if inner > 1 && r.chance(1, 4) { echo(r, &t) } else { t }
    }
    /// The term with one leaf replaced.
    pub fn tweak(&self, r: &mut Rng, t: &T) -> T {
        match t {
            N(k, l, z) => {
                if r.below(size(t)) <= size(l) {
                    n(*k, self.tweak(r, l), (**z).clone())
                } else {
                    n(*k, (**l).clone(), self.tweak(r, z))
                }
            }
            _ => self.leaf(r),
        }
    }
    fn fresh(&self, r: &mut Rng, inner: usize) -> T {
        if inner == 0 || self.kinds.is_empty() {
            return self.leaf(r);
        }
        let k = if r.chance(2, 5) && self.kinds.contains(&App) { App } else { *r.pick(&self.kinds) };
        let left = match r.below(4) {
            0 => 0,
            1 => inner - 1,
            _ => r.below(inner),
        };
        n(k, self.fresh(r, left), self.fresh(r, inner - 1 - left))
    }
    /// All trees with exactly `inner` inner nodes.
    pub fn all(&self, inner: usize) -> Vec<T> {
        if inner == 0 {
            return self.leaves();
        }
        let mut out = vec![];
        for left in 0..inner {
            let ls = self.all(left);
            let rs = self.all(inner - 1 - left);
            for k in &self.kinds {
                for l in &ls {
                    for r in &rs {
                        out.push(n(*k, l.clone(), r.clone()));
                    }
                }
            }
        }
        out
    }
}
/// A left spine: f applied to m arguments, nested on the left.
pub fn wide_app(m: usize) -> T {
    let mut t = g(0, 0);
    for i in 0..m {
        t = app(t, if i % 2 == 0 { c((i % 5) as u16) } else { F((i % 3) as u16) });
    }
    t
}
