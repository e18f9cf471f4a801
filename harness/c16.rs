//! C16: supports first, everything kept, nothing moved without need.
use super::base::*;
use super::terms::*;
use crate::kernel::clause::Clause;
use crate::kernel::literal::Literal;
use crate::kernel::local_context::LocalContext;
use crate::proof_order::unit_support_order;

/// (positive, left, right) with small constants
type L = (bool, u8, u8);

fn side(i: u8) -> T {
    match i {
        0 => c(0),
        1 => c(1),
        2 => app(c(0), c(1)),
        3 => g(0, 3),
        4 => app(c(2), T::F(0)),
        5 => T::F(0),
        n => c(n as u16),
    }
}
fn clause(ls: &[L]) -> Clause {
    let literals = ls.iter().map(|(p, l, r)| Literal { positive: *p, left: build(&side(*l)), right: build(&side(*r)) }).collect();
    Clause { literals, context: LocalContext::empty() }
}
fn supports(c: &[Vec<L>], s: usize, d: usize) -> bool {
    if s <= d {
        return false;
    }
    let refutes = c[d].len() > 1 && c[s].len() == 1 && c[s][0].0 && c[d].iter().any(|(p, l, r)| !p && (true, *l, *r) == c[s][0]);
    let contains = c[d].len() == 1 && c[s].len() > 1 && c[s].contains(&c[d][0]);
    refutes || contains
}
fn expected(c: &[Vec<L>]) -> Option<Vec<usize>> {
    let n = c.len();
    if !(0..n).any(|s| (0..n).any(|d| supports(c, s, d))) {
        return None;
    }
    let mut out: Vec<usize> = vec![];
    while out.len() < n {
        let x = (0..n).find(|x| !out.contains(x) && (0..n).all(|s| !supports(c, s, *x) || out.contains(&s))).unwrap();
        out.push(x);
    }
    Some(out)
}
fn check(b: &mut Bench, c: &Vec<Vec<L>>) {
    let e = expected(c);
    b.case("proof_order.stable", c, e.is_some(), |c| {
        let clauses: Vec<Clause> = c.iter().map(|x| clause(x)).collect();
        let r = unit_support_order(&clauses);
        if let Some(o) = &r {
            let mut all = o.clone();
            all.sort();
            want("every clause has one place", all, (0..c.len()).collect::<Vec<_>>())?;
            for s in 0..c.len() {
                for d in 0..c.len() {
                    let at = |x: usize| o.iter().position(|y| *y == x).unwrap();
                    ensure(&format!("clause {} supports clause {} and comes first, in {:?}", s, d, o), !supports(c, s, d) || at(s) < at(d))?;
                }
            }
        }
        want("the order", r, expected(c))
    });
}

// ---- the callers --------------------------------------------------------------------------------
use crate::certificate::verif_hook as cert;
use crate::kernel::certificate_step::{CertificateStep, Claim, SatisfyStep};
use crate::kernel::kernel_context::KernelContext;
use crate::kernel::variable_map::VariableMap;
use crate::prover::proof::{verif_hook as steps, ConcreteRationale, ConcreteStep};

fn supports_c(c: &[Clause], s: usize, d: usize) -> bool {
    if s <= d {
        return false;
    }
    let (x, y) = (&c[s].literals, &c[d].literals);
    let refutes = y.len() > 1 && x.len() == 1 && x[0].positive && y.iter().any(|l| !l.positive && l.left == x[0].left && l.right == x[0].right);
    let contains = y.len() == 1 && x.len() > 1 && x.contains(&y[0]);
    refutes || contains
}
fn stable(c: &[Clause]) -> Vec<usize> {
    let n = c.len();
    let mut out: Vec<usize> = vec![];
    while out.len() < n {
        let x = (0..n).find(|x| !out.contains(x) && (0..n).all(|s| !supports_c(c, s, *x) || out.contains(&s))).unwrap();
        out.push(x);
    }
    out
}
/// signed atoms; none: a step without clauses, or a step that is not a claim
type P = Option<Vec<(bool, u16)>>;
fn atoms(ls: &[(bool, u16)]) -> Clause {
    Clause::new(ls.iter().map(|(p, i)| Literal::from_signed_term(build(&c(*i)), *p)).collect(), &LocalContext::empty())
}
fn concrete(i: usize, x: &P) -> ConcreteStep {
    let var_maps = if x.is_some() { (0..1 + i % 2).map(|_| (VariableMap::new(), LocalContext::empty())).collect() } else { vec![] };
    ConcreteStep { rationale: ConcreteRationale::BooleanReduction { source: atoms(&[(true, 900 + i as u16)]) }, generic: atoms(x.as_deref().unwrap_or(&[])), var_maps, preserve_open: false }
}
/// which of the original steps this is
fn tag(s: &Clause) -> String {
    format!("{}", s)
}
fn callers(b: &mut Bench, v: &Vec<P>) {
    let whole = v.iter().all(|x| x.is_some());
    b.case("proof_order.concrete_steps", v, whole && v.len() > 1, |v| {
        let k = KernelContext::new();
        let mut s: Vec<ConcreteStep> = v.iter().enumerate().map(|(i, x)| concrete(i, x)).collect();
        let firsts: Vec<Clause> = s.iter().filter_map(|x| x.to_clauses(&k).into_iter().next()).collect();
        let order = if firsts.len() == v.len() { stable(&firsts) } else { (0..v.len()).collect() };
        steps::reorder(&mut s, &k);
        let got: Vec<(String, Clause, usize)> = s.iter().map(|x| match &x.rationale {
            ConcreteRationale::BooleanReduction { source } => (tag(source), x.generic.clone(), x.var_maps.len()),
            _ => ("other".to_string(), x.generic.clone(), 0),
        }).collect();
        let all: Vec<(String, Clause, usize)> = v.iter().enumerate().map(|(i, x)| (tag(&atoms(&[(true, 900 + i as u16)])), atoms(x.as_deref().unwrap_or(&[])), if x.is_some() { 1 + i % 2 } else { 0 })).collect();
        want("the steps", got, order.iter().map(|i| all[*i].clone()).collect::<Vec<_>>())
    });
    b.case("proof_order.claims", v, whole && v.len() > 1, |v| {
        let k = KernelContext::new();
        let claim = |x: &[(bool, u16)]| Claim::new(atoms(x), VariableMap::new()).unwrap();
        let given: Vec<(CertificateStep, Option<Clause>)> = v.iter().enumerate().map(|(i, x)| {
            let step = match x {
                Some(ls) => CertificateStep::Claim(claim(ls)),
                None => CertificateStep::Satisfy(SatisfyStep {
                    name: format!("w{}", i), type_params: vec![], arguments: vec![], return_name: None,
                    return_type: crate::elaborator::acorn_type::AcornType::Bool, condition: crate::elaborator::acorn_value::AcornValue::Bool(true),
                    justification: claim(&[(true, 5)]), specialized_clause: None, witness_clauses: vec![],
                }),
            };
            (step, Some(atoms(&[(true, 900 + i as u16)])))
        }).collect();
        // the runs of claims, each on its own
        let mut expected = vec![];
        let mut i = 0;
        while i < v.len() {
            let mut j = i;
            while j < v.len() && v[j].is_some() {
                j += 1;
            }
            let clauses: Vec<Clause> = (i..j).map(|x| claim(v[x].as_ref().unwrap()).normalized_specialized_clause(&k).unwrap()).collect();
            expected.extend(stable(&clauses).iter().map(|x| given[i + x].clone()));
            if j < v.len() {
                expected.push(given[j].clone());
            }
            i = j + 1;
        }
        let got = cert::reorder(given, &k);
        ensure(&format!("the claims in the expected order; tags {:?}", got.iter().map(|x| tag(x.1.as_ref().unwrap())).collect::<Vec<_>>()), got == expected)
    });
}
fn some_steps(b: &mut Bench) -> Vec<P> {
    let most = if b.rng.chance(1, 10) { 20 } else { 7 };
    let n = 2 + b.rng.below(most);
    let others = b.rng.below(3);
    let at = 1 + b.rng.below(4);
    (0..n).map(|_| {
        if b.rng.below(8) < others {
            return None;
        }
        let k = *b.rng.pick(&[1, 1, 2, 2, 3]);
        Some((0..k).map(|_| (b.rng.chance(1, 2), b.rng.below(at + 1) as u16)).collect())
    }).collect()
}
pub fn run(b: &mut Bench) {
    // every list of up to three clauses over one equation and its like
    let mut pool: Vec<Vec<L>> = vec![vec![]];
    let lits: Vec<L> = vec![(true, 0, 1), (false, 0, 1), (true, 1, 0), (true, 2, 1), (false, 2, 1)];
    for x in &lits {
        pool.push(vec![*x]);
        for y in &lits {
            pool.push(vec![*x, *y]);
        }
    }
    b.phase(0.3);
    for x in &pool {
        check(b, &vec![x.clone()]);
        for y in &pool {
            check(b, &vec![x.clone(), y.clone()]);
        }
    }
    for x in &pool {
        for y in &pool {
            for z in &pool {
                if b.time_left() {
                    check(b, &vec![x.clone(), y.clone(), z.clone()]);
                }
            }
        }
    }
    check(b, &vec![]);
    b.phase(0.3);
    while b.time_left() {
        let v = some_steps(b);
        callers(b, &v);
    }
    b.phase(0.4);
    while b.time_left() {
        let most = if b.rng.chance(1, 10) { 40 } else { 9 };
        let n = 2 + b.rng.below(most);
        let sides = 1 + b.rng.below(5);
        let eqs = 1 + b.rng.below(6);
        let eq: Vec<(u8, u8)> = (0..eqs).map(|_| (b.rng.below(sides + 1) as u8, b.rng.below(sides + 1) as u8)).collect();
        let units = b.rng.below(4);
        let pos = b.rng.below(4);
        let mut c: Vec<Vec<L>> = vec![];
        for _ in 0..n {
            if !c.is_empty() && b.rng.chance(1, 8) {
                let again = b.rng.pick(&c).clone();
                c.push(again);
                continue;
            }
            let k = if b.rng.below(4) < units { 1 } else { b.rng.below(5) };
            c.push((0..k).map(|_| { let (l, r) = *b.rng.pick(&eq); (b.rng.below(4) < pos, l, r) }).collect());
        }
        check(b, &c);
    }
}
