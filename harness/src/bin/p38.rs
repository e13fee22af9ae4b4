//! P38: what a setup draws holds no shortcut. Keys are drawn over a group whose discrete
//! logarithms are in the open, so that a relation between generators, or a weak trapdoor, shows.
use ark_bls12_381::{Bls12_381, Fr};
use ark_ec::PairingEngine;
use ark_ff::{BigInteger, Field, One, PrimeField, Zero};
use ark_serialize::CanonicalSerialize;
use std::collections::HashMap;
use vharness::all::GENS;
use vharness::circ::*;
use vharness::clear::{Clear, Pt};
use vharness::tree::*;
use vharness::*;
use zkp_curve::{Curve, ProjectiveCurve};
use zkp_curve25519::Curve25519;
use zkp_r1cs::{ConstraintSynthesizer, ConstraintSystem, SynthesisError};

fn fe<T, E: std::fmt::Debug>(sig: &str, r: Result<T, E>) -> Result<T, Fail> {
    r.map_err(|e| Fail { sig: sig.into(), msg: format!("{:?}", e) })
}
/// no relation one would find by looking for a shortcut
fn unrelated(sig: &str, names: &[String], v: &[Fr]) -> R {
    let f = |what: &str, at: &[usize]| -> R {
        fail(sig, format!("{}: {}", what, at.iter().map(|i| names[*i].clone()).collect::<Vec<_>>().join(", ")))
    };
    let m = v.len();
    let mut at = HashMap::new();
    for (i, a) in v.iter().enumerate() {
        // zero, small, or minus something small
        if a.into_repr().num_bits() < 190 || (-*a).into_repr().num_bits() < 190 {
            return f("a small logarithm", &[i]);
        }
        if a.inverse().unwrap().into_repr().num_bits() < 190 {
            return f("the inverse of something small", &[i]);
        }
        if let Some(j) = at.insert(*a, i) {
            return f("one logarithm twice", &[j, i]);
        }
    }
    let small: Vec<Fr> = (1..=16u64).flat_map(|x| vec![Fr::from(x), -Fr::from(x)]).collect();
    let find = |x: Fr| at.get(&x).copied();
    for i in 0..m {
        if let Some(j) = find(v[i].square()) {
            return f("a square of another", &[i, j]);
        }
        if let Some(j) = find(v[i].inverse().unwrap()) {
            return f("inverse to each other", &[i, j]);
        }
        for c in &small {
            match find(v[i] * c) {
                Some(j) if j != i => return f("a small multiple of another", &[i, j]),
                _ => {}
            }
            if let Some(j) = find(v[i] + c) {
                return f("a small step from another", &[i, j]);
            }
        }
        for j in 0..m {
            if i == j {
                continue;
            }
            if let Some(k) = find(v[i] - v[j]) {
                return f("a sum of two others", &[k, j, i]);
            }
            if let Some(k) = find(v[i] * v[j]) {
                return f("a product of two others", &[i, j, k]);
            }
            if let Some(k) = find(v[i].double() - v[j]) {
                return f("an arithmetic progression", &[j, i, k]);
            }
            if let Some(k) = find(-v[i] - v[j]) {
                return f("three that cancel", &[i, j, k]);
            }
            if let Some(k) = find(v[i].square() * v[j].inverse().unwrap()) {
                return f("a geometric progression", &[j, i, k]);
            }
        }
        if i + 3 < m {
            let d: Vec<Fr> = (0..3).map(|k| v[i + k + 1] - v[i + k]).collect();
            if d[1].square() == d[0] * d[2] {
                return f("an affine recurrence", &[i, i + 1, i + 2, i + 3]);
            }
        }
    }
    Ok(())
}

/// names and points of one commitment key whose members are used together
type Key<G> = (String, Vec<(String, <G as Curve>::Affine)>);

fn bullet<G: Curve>(s: &mut Src) -> Result<Vec<Key<G>>, Fail> {
    let o = Opts { min_con: 1, ..Opts::default() }.widen(s, 12, 60);
    let c: Circ<G::Fr> = gen_circ(s, &o);
    let mut rng = s.rng();
    let (g, _, _) = fe("error", zkp_bulletproofs::arithmetic_circuit::create_random_proof::<G, _, _>(c, &mut rng))?;
    let t = Ty::p(GENS).parse(&ser(&g), &ops::<G::Affine>())?;
    let pts = t
        .leaves()
        .into_iter()
        .filter(|l| l.1 == 'g')
        .map(|(p, _, b)| (p, de::<G::Affine>(&b).unwrap()))
        .collect::<Vec<_>>();
    Ok(vec![("bulletproofs".into(), pts)])
}
macro_rules! multi {
    ($k:expr, $name:expr, $m:expr, $extra:expr) => {{
        let mut v: Vec<(String, G::Affine)> = $m.generators.iter().enumerate().map(|(i, g)| (format!("generators[{}]", i), *g)).collect();
        v.push(("h".into(), $m.h));
        let e: Option<G::Affine> = $extra;
        if let Some(g) = e {
            v.push(("gen_1".into(), g));
        }
        if v.len() < $m.n + 1 {
            return Err(Fail { sig: "short".into(), msg: format!("{}: {} generators for {} values", $name, v.len() - 1, $m.n) });
        }
        $k.push(($name.to_string(), v));
    }};
}
macro_rules! params {
    ($name:ident, $krate:ident) => {
        fn $name<G: Curve>(s: &mut Src) -> Result<Vec<Key<G>>, Fail> {
            let num = 1 + s.below(9);
            let mut rng = s.rng();
            let p = $krate::params::Parameters::<G>::new(&mut rng, num);
            let mut k: Vec<Key<G>> = vec![];
            multi!(k, "pc.gen_n", p.pc_params.gen_n, p.pc_params.gen_1.generators.first().copied());
            multi!(k, "pc.gen_1", p.pc_params.gen_1, None);
            multi!(k, "sc.gen_1", p.sc_params.gen_1, None);
            multi!(k, "sc.gen_3", p.sc_params.gen_3, None);
            multi!(k, "sc.gen_4", p.sc_params.gen_4, None);
            Ok(k)
        }
    };
}
params!(libra, zkp_libra);
params!(hyrax, zkp_hyrax);
fn spartan<G: Curve>(s: &mut Src) -> Result<Vec<Key<G>>, Fail> {
    use zkp_spartan::setup::*;
    let (a, i, c) = (1 + s.size(40), 1 + s.size(20), 1 + s.size(30));
    let mut rng = s.rng();
    let mut k: Vec<Key<G>> = vec![];
    let sat = if s.bool() {
        fe("error", generate_setup_nizk_parameters::<G, _>(&mut rng, a, i))?.r1cs_satisfied_params
    } else {
        let p = fe("error", generate_setup_snark_parameters::<G, _>(&mut rng, a, i, c))?;
        for (n, q) in [("ops", &p.r1cs_eval_params.ops_params), ("mem", &p.r1cs_eval_params.mem_params), ("derefs", &p.r1cs_eval_params.derefs_params)] {
            multi!(k, format!("{}.gen_n", n), q.gen_n, q.gen_1.generators.first().copied());
            multi!(k, format!("{}.gen_1", n), q.gen_1, None);
        }
        p.r1cs_satisfied_params
    };
    multi!(k, "pc.gen_n", sat.pc_params.gen_n, sat.pc_params.gen_1.generators.first().copied());
    multi!(k, "pc.gen_1", sat.pc_params.gen_1, None);
    multi!(k, "sc.gen_1", sat.sc_params.gen_1, None);
    multi!(k, "sc.gen_3", sat.sc_params.gen_3, None);
    multi!(k, "sc.gen_4", sat.sc_params.gen_4, None);
    Ok(k)
}
fn clear_keys(s: &mut Src, keys: Vec<Key<Clear>>) -> R {
    for (name, v) in keys {
        s.label(name.clone());
        if v.len() > 2 {
            s.nontrivial();
        }
        s.note(format!("{} of {}", name, v.len()));
        let (n, p): (Vec<String>, Vec<Fr>) = v.into_iter().map(|(n, p): (String, Pt)| (format!("{}.{}", name, n), p.0)).unzip();
        unrelated("related", &n, &p)?;
    }
    Ok(())
}
/// the same on real curves, as far as it shows there
fn curve_keys<G: Curve>(keys: Vec<Key<G>>) -> R {
    for (name, v) in keys {
        let b = |p: G::Projective| ser(&p.into_affine());
        let mut seen: HashMap<Vec<u8>, String> = HashMap::new();
        let pr: Vec<G::Projective> = v.iter().map(|x| G::Projective::from(x.1)).collect();
        for (i, (n, p)) in v.iter().enumerate() {
            ensure!(!p.is_zero(), "zero", "{}.{} is the neutral element", name, n);
            ensure!(pr[i].mul(<G::Fr as PrimeField>::Params::MODULUS.as_ref()).is_zero(), "order", "{}.{} is not in the group", name, n);
            let mut d = pr[i];
            d += pr[i];
            for (w, q) in [("itself", pr[i]), ("its negative", -pr[i]), ("its double", d)] {
                if let Some(o) = seen.insert(b(q), format!("{}, {}", n, w)) {
                    return fail("related", format!("{}: {} of {} is also {}", name, w, n, o));
                }
            }
        }
        for i in 0..pr.len().min(12) {
            for j in 0..i {
                let mut d = pr[i];
                d += pr[j];
                if let Some(o) = seen.get(&b(d)) {
                    return fail("related", format!("{}: {} and {} add up to {}", name, v[i].0, v[j].0, o));
                }
            }
        }
    }
    Ok(())
}
use ark_ec::AffineCurve;
use ark_ff::FpParameters;
fn gens_clear(s: &mut Src) -> R {
    let k = match s.below(4) {
        0 => bullet::<Clear>(s)?,
        1 => libra::<Clear>(s)?,
        2 => hyrax::<Clear>(s)?,
        _ => spartan::<Clear>(s)?,
    };
    clear_keys(s, k)
}
fn curve_one<G: Curve>(s: &mut Src) -> R {
    let k = match s.below(4) {
        0 => bullet::<G>(s)?,
        1 => libra::<G>(s)?,
        2 => hyrax::<G>(s)?,
        _ => spartan::<G>(s)?,
    };
    if k.iter().any(|x| x.1.len() > 2) {
        s.nontrivial();
    }
    s.note(k.iter().map(|x| format!("{} of {}", x.0, x.1.len())).collect::<Vec<_>>().join(", "));
    curve_keys::<G>(k)
}
fn gens_curve(s: &mut Src) -> R {
    if s.bool() {
        s.label("curve25519");
        curve_one::<Curve25519>(s)
    } else {
        s.label("bls12-381");
        curve_one::<Bls12_381>(s)
    }
}

/// rows (1 + inputs) * x_i = x_i, as many as with the inputs' own fill the domain
#[derive(Clone)]
struct Rows {
    rows: usize,
    pubs: usize,
}
impl<F: PrimeField> ConstraintSynthesizer<F> for Rows {
    fn generate_constraints<C: ConstraintSystem<F>>(self, cs: &mut C) -> Result<(), SynthesisError> {
        let mut x = vec![];
        for i in 0..self.pubs {
            x.push(cs.alloc_input(|| format!("p{}", i), || Ok(F::zero()))?);
        }
        for i in 0..self.rows {
            let a = cs.alloc(|| format!("a{}", i), || Ok(F::one()))?;
            cs.enforce(|| format!("c{}", i), |lc| lc + C::one(), |lc| lc + a, |lc| lc + a);
        }
        Ok(())
    }
}
fn groth(s: &mut Src, rng: &mut TapeRng) -> Result<Vec<(String, Fr)>, Fail> {
    let size = 1usize << (1 + s.below(5));
    let pubs = s.below(size.min(5) - 1);
    let c = Rows { rows: size - 1 - pubs, pubs };
    s.note(format!("{} rows and {} inputs", c.rows, c.pubs));
    let p = fe("error", zkp_groth16::generate_random_parameters::<Clear, _, _>(c, rng))?;
    // the rows' Lagrange polynomials add up to one
    let g1: Fr = p.a_query[..=pubs].iter().map(|q| q.0).sum();
    ensure!(!g1.is_zero() && p.h_query.len() + 1 >= size, "degenerate", "generator {} and {} powers", g1, p.h_query.len());
    let d1 = g1.inverse().unwrap();
    let beta = p.beta_g1.0 * d1;
    ensure!(!beta.is_zero() && !p.vk.beta_g2.0.is_zero(), "degenerate", "beta is zero");
    let g2 = p.vk.beta_g2.0 * beta.inverse().unwrap();
    let mut v = vec![("alpha", p.vk.alpha_g1.0 * d1), ("beta", beta), ("delta", p.delta_g1.0 * d1), ("gamma", p.vk.gamma_g2.0 * g2.inverse().unwrap())];
    ensure!(v[2].1 * g2 == p.vk.delta_g2.0, "delta", "delta differs between the groups");
    if p.h_query.len() > 1 {
        ensure!(!p.h_query[0].0.is_zero(), "degenerate", "the vanishing polynomial vanishes");
        v.push(("tau", p.h_query[1].0 * p.h_query[0].0.inverse().unwrap()));
    }
    Ok(v.into_iter().map(|(n, x)| (n.to_string(), x)).collect())
}
fn kzg(s: &mut Src, rng: &mut TapeRng) -> Result<Vec<(String, Fr)>, Fail> {
    let d = 1 + s.size(60);
    s.note(format!("degree {}", d));
    let p = fe("error", zkp_marlin::universal_setup::<Clear, _>(d, rng))?;
    let (g, h) = (p.powers_of_g[0].0, p.h.0);
    ensure!(!g.is_zero() && !h.is_zero() && p.powers_of_g.len() > d, "degenerate", "generators {} and {}, {} powers", g, h, p.powers_of_g.len());
    let (gi, hi) = (g.inverse().unwrap(), h.inverse().unwrap());
    let beta = p.powers_of_g[1].0 * gi;
    let gamma = p.powers_of_gamma_g[0].0 * gi;
    ensure!(p.beta_h.0 * hi == beta, "beta", "beta differs between the groups");
    ensure!(!beta.is_zero() && !gamma.is_zero(), "degenerate", "beta {} and gamma {}", beta, gamma);
    // the blinding generator is no power of beta: such a commitment would hide nothing and bind nothing
    let mut x = beta.inverse().unwrap();
    for i in -1..=(p.powers_of_g.len() as i64) {
        ensure!(x != gamma && x != -gamma, "gamma", "the blinding generator is the power {} of the key", i);
        x *= beta;
    }
    Ok(vec![("beta".into(), beta), ("gamma".into(), gamma)])
}
fn asvc(s: &mut Src, rng: &mut TapeRng) -> Result<Vec<(String, Fr)>, Fail> {
    let n = 1 + s.size(30);
    s.note(format!("{} values", n));
    let p = fe("error", zkp_asvc::key_gen::<Clear, _>(n, rng))?;
    let v = &p.verification_key;
    let (g, h) = (v.powers_of_g1[0].0, v.powers_of_g2[0].0);
    ensure!(!g.is_zero() && !h.is_zero(), "degenerate", "generators {} and {}", g, h);
    let tau = v.powers_of_g1[1].0 * g.inverse().unwrap();
    ensure!(v.powers_of_g2[1].0 * h.inverse().unwrap() == tau, "tau", "tau differs between the groups");
    Ok(vec![("tau".into(), tau)])
}
/// trapdoors, of several keys from one source: all fresh
fn trapdoors(s: &mut Src) -> R {
    let mut rng = s.rng();
    let f = *s.pick(&[groth as fn(&mut Src, &mut TapeRng) -> _, kzg, asvc]);
    let (mut n, mut v) = (vec![], vec![]);
    for k in 0..3 {
        for (a, x) in f(s, &mut rng)? {
            // of no use: roots of unity of small order
            let mut y = x;
            for _ in 0..32 {
                ensure!(!y.is_one() && !y.is_zero(), "degenerate", "{} is a root of unity", a);
                y.square_in_place();
            }
            n.push(format!("{} of key {}", a, k + 1));
            v.push(x);
        }
    }
    s.nontrivial();
    s.label(match v.len() {
        3 => "asvc",
        6 => "kzg",
        _ => "groth16",
    });
    unrelated("related", &n, &v)
}

fn main() {
    let _ = <Clear as PairingEngine>::Fr::one().serialized_size();
    vharness::main(
        "P38",
        "a key of at least two generators beside the blinding one, or the trapdoors of three keys",
        vec![
            sub("generators", 300, 20000, gens_clear),
            sub("trapdoors", 400, 20000, trapdoors),
            sub("curves", 40, 2000, gens_curve),
        ],
    )
}
