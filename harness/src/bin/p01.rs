//! P01: linear combinations against a coefficient-map model.
use ark_bls12_381::Fr;
use ark_ff::{Field, One, PrimeField, UniformRand, Zero};
use std::collections::BTreeMap;
use vharness::*;
use zkp_r1cs::{ConstraintVar, Index, LinearCombination, Variable};

type Model = BTreeMap<Variable, Fr>;
type L = LinearCombination<Fr>;
type C = ConstraintVar<Fr>;

fn var(s: &mut Src, n: usize) -> Variable {
    let i = s.below(n);
    if s.bool() {
        Variable::new_unchecked(Index::Aux(i))
    } else {
        Variable::new_unchecked(Index::Input(i))
    }
}
fn add(a: &Model, b: &Model, k: Fr) -> Model {
    let mut m = a.clone();
    for (v, c) in b {
        *m.entry(*v).or_insert(Fr::zero()) += *c * k;
    }
    m
}
fn single(v: Variable, c: Fr) -> Model {
    let mut m = Model::new();
    m.insert(v, c);
    m
}
fn scale(a: &Model, k: Fr) -> Model {
    a.iter().map(|(v, c)| (*v, *c * k)).collect()
}
fn check(l: &L, m: &Model, asg: &dyn Fn(Variable) -> Fr, op: &str, structural: bool) -> R {
    let mut got: Model = BTreeMap::new();
    let mut prev: Option<Variable> = None;
    let mut sorted = true;
    let mut dup = false;
    for (v, c) in l.as_ref() {
        if let Some(p) = prev {
            if *v < p {
                sorted = false;
            }
            if *v == p {
                dup = true;
            }
        }
        prev = Some(*v);
        if got.contains_key(v) {
            dup = true;
        }
        *got.entry(*v).or_insert(Fr::zero()) += *c;
    }
    let e1: Fr = l.as_ref().iter().map(|(v, c)| asg(*v) * c).fold(Fr::zero(), |a, b| a + b);
    let e2: Fr = m.iter().map(|(v, c)| asg(*v) * c).fold(Fr::zero(), |a, b| a + b);
    ensure!(e1 == e2, "value", "{}: evaluates to a different value ({} terms, model {})", op, l.as_ref().len(), m.len());
    for (v, c) in m {
        let g = got.get(v).copied().unwrap_or(Fr::zero());
        ensure!(g == *c, "coefficient", "{}: coefficient of {:?} differs", op, v);
    }
    for (v, c) in &got {
        ensure!(m.contains_key(v) || c.is_zero(), "extra", "{}: {:?} appears", op, v);
    }
    if structural {
        ensure!(!dup, "duplicate-term", "{}: a variable occurs twice in the combination", op);
        ensure!(sorted, "unsorted", "{}: terms out of order", op);
    }
    Ok(())
}

fn program(s: &mut Src) -> R {
    let nv = s.range(1, 20);
    let mut lcs: Vec<(L, Model)> = vec![(L::zero(), Model::new())];
    let mut cvs: Vec<(C, Model)> = vec![];
    let mut seed = s.rng();
    let vals: Vec<Fr> = (0..2 * nv).map(|_| Fr::rand(&mut seed)).collect();
    let asg = move |v: Variable| match v.get_unchecked() {
        Index::Input(i) => vals[i],
        Index::Aux(i) => vals[nv + i],
    };
    let steps = s.range(1, 80);
    let mut ops = vec![];
    for _ in 0..steps {
        let i = s.below(lcs.len());
        let j = s.below(lcs.len());
        let (a, ma) = lcs[i].clone();
        let (b, mb) = lcs[j].clone();
        let v = var(s, nv);
        let k: Fr = s.field();
        let op = s.below(44);
        ops.push(op.to_string());
        let neg = -Fr::one();
        let mut newlc: Option<(L, Model)> = None;
        let mut newcv: Option<(C, Model)> = None;
        let cv = |s: &mut Src, cvs: &Vec<(C, Model)>| -> (C, Model) {
            if cvs.is_empty() || s.chance(1, 3) {
                match s.below(3) {
                    0 => (C::from(v), single(v, Fr::one())),
                    1 => (C::from((k, v)), single(v, k)),
                    _ => (C::from(a.clone()), ma.clone()),
                }
            } else {
                let i = s.below(cvs.len());
                cvs[i].clone()
            }
        };
        match op {
            0..=7 => newlc = Some((a + (k, v), add(&ma, &single(v, k), Fr::one()))),
            8 => newlc = Some((a - (k, v), add(&ma, &single(v, k), neg))),
            9 => newlc = Some((a + v, add(&ma, &single(v, Fr::one()), Fr::one()))),
            10 => newlc = Some((a - v, add(&ma, &single(v, Fr::one()), neg))),
            11 => {
                let mut a = a;
                a += (k, v);
                newlc = Some((a, add(&ma, &single(v, k), Fr::one())))
            }
            12 => newlc = Some((-a, scale(&ma, neg))),
            13 => newlc = Some((a * k, scale(&ma, k))),
            14 => {
                let mut a = a;
                a.double_in_place();
                newlc = Some((a, scale(&ma, Fr::from(2u64))))
            }
            15 => newlc = Some((&a + &b, add(&ma, &mb, Fr::one()))),
            16 => newlc = Some((&a + b, add(&ma, &mb, Fr::one()))),
            17 => newlc = Some((a + &b, add(&ma, &mb, Fr::one()))),
            18 => newlc = Some((a + b, add(&ma, &mb, Fr::one()))),
            19 => newlc = Some((&a - &b, add(&ma, &mb, neg))),
            20 => newlc = Some((&a - b, add(&ma, &mb, neg))),
            21 => newlc = Some((a - &b, add(&ma, &mb, neg))),
            22 => newlc = Some((a - b, add(&ma, &mb, neg))),
            23 => newlc = Some((&a + (k, &b), add(&ma, &mb, k))),
            24 => newlc = Some((a + (k, &b), add(&ma, &mb, k))),
            25 => newlc = Some((&a + (k, b), add(&ma, &mb, k))),
            26 => newlc = Some((a + (k, b), add(&ma, &mb, k))),
            27 => newlc = Some((&a - (k, &b), add(&ma, &mb, -k))),
            28 => newlc = Some((a - (k, &b), add(&ma, &mb, -k))),
            29 => newlc = Some((&a - (k, b), add(&ma, &mb, -k))),
            30 => newlc = Some((a - (k, b), add(&ma, &mb, -k))),
            31 => {
                let mut a = a;
                a.replace_in_place(b);
                newlc = Some((a, mb))
            }
            32 => newlc = Some((L::from((k, v)), single(v, k))),
            33 => {
                let (c, mc) = cv(s, &cvs);
                newlc = Some((c + b, add(&mc, &mb, Fr::one())))
            }
            34 => {
                let (c, mc) = cv(s, &cvs);
                newlc = Some((c - b, add(&mc, &mb, neg)))
            }
            35 => {
                let (c, mc) = cv(s, &cvs);
                newlc = Some(if s.bool() { (&c + b, add(&mc, &mb, Fr::one())) } else { (&c - b, add(&mc, &mb, neg)) })
            }
            36 => {
                let (c, mc) = cv(s, &cvs);
                newcv = Some(if s.bool() { (c + (k, v), add(&mc, &single(v, k), Fr::one())) } else { (c - (k, v), add(&mc, &single(v, k), neg)) })
            }
            37 => {
                let (mut c, mc) = cv(s, &cvs);
                c += (k, v);
                newcv = Some((c, add(&mc, &single(v, k), Fr::one())))
            }
            38 => {
                let (mut c, mc) = cv(s, &cvs);
                newcv = Some(match s.below(4) {
                    0 => (-c, scale(&mc, neg)),
                    1 => (c * k, scale(&mc, k)),
                    2 => {
                        c *= k;
                        (c, scale(&mc, k))
                    }
                    _ => {
                        c.double_in_place();
                        (c, scale(&mc, Fr::from(2u64)))
                    }
                })
            }
            39 => {
                let (c, mc) = cv(s, &cvs);
                newcv = Some(if s.bool() { (c + v, add(&mc, &single(v, Fr::one()), Fr::one())) } else { (c - v, add(&mc, &single(v, Fr::one()), neg)) })
            }
            40 => {
                let (c, mc) = cv(s, &cvs);
                let (d, md) = cv(s, &cvs);
                newcv = Some(match s.below(4) {
                    0 => (c + &d, add(&mc, &md, Fr::one())),
                    1 => (c - &d, add(&mc, &md, neg)),
                    2 => (&c + &d, add(&mc, &md, Fr::one())),
                    _ => (&c - &d, add(&mc, &md, neg)),
                })
            }
            41 => {
                let (c, mc) = cv(s, &cvs);
                let (d, md) = cv(s, &cvs);
                newcv = Some(if s.bool() { (c + (k, &d), add(&mc, &md, k)) } else { (c - (k, &d), add(&mc, &md, -k)) })
            }
            42 => {
                let (c, mc) = cv(s, &cvs);
                newcv = Some((C::from((k, c)), scale(&mc, k)))
            }
            _ => {
                let mut a = a;
                a *= k;
                newcv = Some((C::from((k, a)), scale(&ma, k * k)))
            }
        }
        let opn = format!("op{}", op);
        if let Some((l, m)) = newlc {
            check(&l, &m, &asg, &opn, true)?;
            if l.as_ref().len() >= 6 {
                s.label("lc>=6");
            } else if l.as_ref().len() >= 2 {
                s.label("lc 2..5");
            }
            if op <= 11 {
                // lookup agrees with the terms
                let found = l.get_var_loc(&v);
                let pos = l.as_ref().iter().position(|t| t.0 == v);
                match (found, pos) {
                    (Ok(i), Some(j)) => ensure!(i == j, "lookup", "get_var_loc {} vs {}", i, j),
                    (Err(_), None) => {}
                    _ => return fail("lookup", "variable lookup disagrees with the terms"),
                }
            }
            if s.bool() || lcs.len() < 6 {
                lcs.push((l, m));
            } else {
                lcs[i] = (l, m);
            }
        }
        if let Some((c, m)) = newcv {
            let l = match &c {
                ConstraintVar::LC(l) => l.clone(),
                ConstraintVar::Var(v) => L::from(*v),
            };
            check(&l, &m, &asg, &opn, true)?;
            s.label("constraint-var");
            cvs.push((c, m));
        }
    }
    s.note(format!("vars={} ops={}", nv, ops.join(",")));
    if lcs.iter().any(|l| l.1.len() >= 2) {
        s.nontrivial();
    }
    Ok(())
}

/// the order of variables is total and consistent with sorting
fn order(s: &mut Src) -> R {
    let (a, b, c) = (var(s, 4), var(s, 4), var(s, 4));
    s.note(format!("{:?} {:?} {:?}", a, b, c));
    s.nontrivial();
    use std::cmp::Ordering::*;
    ensure!(a.cmp(&b) == b.cmp(&a).reverse(), "antisymmetry", "cmp not antisymmetric");
    ensure!((a.cmp(&b) == Equal) == (a == b), "equality", "cmp Equal vs ==");
    ensure!(a.partial_cmp(&b) == Some(a.cmp(&b)), "partial", "partial_cmp");
    if a.cmp(&b) != Greater && b.cmp(&c) != Greater {
        ensure!(a.cmp(&c) != Greater, "transitivity", "not transitive");
    }
    let i = a.get_unchecked();
    let mut v = vec![];
    use ark_serialize::*;
    i.serialize(&mut v).unwrap();
    ensure!(v.len() == i.serialized_size(), "index-size", "size");
    ensure!(Index::deserialize(&v[..]).unwrap() == i, "index-roundtrip", "round trip");
    let mut v = vec![];
    i.serialize_uncompressed(&mut v).unwrap();
    ensure!(v.len() == i.uncompressed_size(), "index-size", "size");
    ensure!(Index::deserialize_uncompressed(&v[..]).unwrap() == i, "index-roundtrip", "round trip");
    Ok(())
}

fn main() {
    let _ = Fr::from_repr(Default::default()).map(|x| x.square());
    vharness::main(
        "P01",
        "A case is a random program of 1..80 operator applications over up to 40 variables, each result compared with a coefficient map and on a random assignment; non-trivial = some combination with at least two distinct variables was built.",
        vec![sub("program", 400_000, 6_000_000, program), sub("order", 2000, 20000, order)],
    )
}
