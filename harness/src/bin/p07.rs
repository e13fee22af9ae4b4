//! P07: Marlin soundness.
use ark_bls12_381::{Bls12_381 as E, Fr, G1Projective};
use ark_ec::{msm::VariableBaseMSM, ProjectiveCurve};
use ark_ff::{to_bytes, Field, One, PrimeField, UniformRand, Zero};
use ark_poly::{univariate::DensePolynomial as Poly, EvaluationDomain, GeneralEvaluationDomain as Dom, Polynomial, UVPolynomial};
use std::collections::BTreeMap;
use vharness::circ::*;
use vharness::schemes::marlin::*;
use vharness::schemes::*;
use vharness::tree::ser;
use vharness::*;
use zkp_marlin::verif_hooks::ahp::verifier::{VerifierFirstMsg, VerifierSecondMsg};
use zkp_marlin::verif_hooks::ahp::AHP;
use zkp_marlin::verif_hooks::pc::{Comm, Commitment, Proof as Opening};
use zkp_marlin::verif_hooks::FiatShamirRng;
use zkp_marlin::*;

type M = Marlin<E>;
type P = Poly<Fr>;
fn g(s: &mut Src) -> Circ<Fr> {
    let o = Opts { max_con: 6, max_aux: 6, ..Opts::default() }.widen(s, 14, 20);
    gen_circ(s, &o)
}
fn pubs(s: &mut Src) -> R {
    let c = g(s);
    wrong_public::<M>(s, &c)
}
fn viol(s: &mut Src) -> R {
    let c = g(s);
    violating::<M>(s, &c)
}
fn bound<E2: ark_ec::PairingEngine>(s: &mut Src) -> R {
    let c: Circ<E2::Fr> = gen_circ(s, &Opts { max_con: 6, max_aux: 6, ..Opts::default() });
    bound_snark::<Marlin<E2>>(s, &c, 16, &|_, _| false)
}
fn claims(s: &mut Src) -> R {
    let c = g(s);
    claims_snark::<M>(s, &c)
}
fn alt(s: &mut Src) -> R {
    let c = g(s);
    altered::<M>(s, &c)
}
/// a circuit of the same shape: an honest proof for one is refused by the key of the other
fn other_key(s: &mut Src) -> R {
    let c = g(s);
    let mut rng = s.rng();
    let k = setup::<M>(&c, &mut rng)?;
    let p = prove::<M>(&k, &c, &mut rng)?;
    ensure!(M::accepts(&k, &p, &c.pubs), "rejected", "honest proof rejected");
    for _ in 0..2 {
        // change one coefficient; the assignment may or may not satisfy it still
        let mut d = c.clone();
        let i = s.below(d.cons.len());
        let side = s.below(3);
        let delta: Fr = s.nonzero();
        let l = match side {
            0 => &mut d.cons[i].0,
            1 => &mut d.cons[i].1,
            _ => &mut d.cons[i].2,
        };
        match l.iter_mut().next() {
            Some(t) => t.1 += delta,
            None => l.push((V::One, delta)),
        }
        let kd = setup::<M>(&d, &mut rng)?;
        if ser(&kd.vk) == ser(&k.vk) {
            continue; // the term cancelled or was dropped: the same circuit
        }
        s.label(if d.sat() { "other circuit, also satisfied" } else { "other circuit, violated" });
        ensure!(!M::accepts(&kd, &p, &c.pubs), "other-key-accepted", "accepted under the key of another circuit");
    }
    Ok(())
}

// ------------------------------------------------------------------ a prover of our own
struct Back<'a> {
    srs: &'a UniversalParams<E>,
    vk: &'a IndexVerifierKey<E>,
    shift_base: usize,
    polys: BTreeMap<String, P>,
    bounds: BTreeMap<String, usize>,
}
fn msm(bases: &[ark_bls12_381::G1Affine], p: &P) -> G1Projective {
    let c: Vec<_> = p.coeffs.iter().map(|x| x.into_repr()).collect();
    VariableBaseMSM::multi_scalar_mul(&bases[..c.len()], &c)
}
fn shifted(p: &P, k: usize) -> P {
    let mut v = vec![Fr::zero(); k];
    v.extend(p.coeffs.iter());
    P::from_coefficients_vec(v)
}
fn trunc(p: &P, n: usize) -> P {
    P::from_coefficients_slice(&p.coeffs[..p.coeffs.len().min(n)])
}
impl<'a> Back<'a> {
    fn shift_of(&self, l: &str) -> Option<usize> {
        self.bounds.get(l).map(|b| self.shift_base.saturating_sub(*b))
    }
    /// the polynomial standing behind the shifted commitment
    fn shifted_poly(&self, l: &str) -> Option<P> {
        let k = self.shift_of(l)?;
        Some(trunc(&shifted(&self.polys[l], k), self.srs.powers_of_g.len()))
    }
    fn add(&mut self, l: &str, p: P, bound: Option<usize>) -> Commitment<E> {
        let p = trunc(&p, self.srs.powers_of_g.len());
        let comm = Comm(msm(&self.srs.powers_of_g, &p).into_affine());
        self.polys.insert(l.into(), p);
        if let Some(b) = bound {
            self.bounds.insert(l.into(), b);
        }
        let shifted_comm = self.shifted_poly(l).map(|q| Comm(msm(&self.srs.powers_of_g, &q).into_affine()));
        Commitment { comm, shifted_comm }
    }
    fn open(&self, labels: &[&String], z: Fr, ch: Fr) -> Opening<E> {
        let mut acc = P::zero();
        let mut c = Fr::one();
        for l in labels {
            acc = &acc + &self.polys[*l].muls(c);
            if let Some(q) = self.shifted_poly(l) {
                acc = &acc + &q.muls(c * ch);
            }
            c *= ch.square();
        }
        let q = &acc / &P::from_coefficients_vec(vec![-z, Fr::one()]);
        Opening { w: msm(&self.srs.powers_of_g, &q).into_affine(), rand_v: None }
    }
}
trait MulS {
    fn muls(&self, c: Fr) -> P;
}
impl MulS for P {
    fn muls(&self, c: Fr) -> P {
        P::from_coefficients_vec(self.coeffs.iter().map(|x| *x * c).collect())
    }
}
fn bivar(h: &Dom<Fr>, x: Fr, y: Fr) -> Fr {
    (h.evaluate_vanishing_polynomial(x) - h.evaluate_vanishing_polynomial(y)) * (x - y).inverse().unwrap()
}
/// verifier's equations solved for: outer lhs - h_1 v_H (so g_1 = it / beta), inner lhs-rhs without g_2
struct Eqs {
    outer: Fr,
    g1_coeff: Fr,
    inner: Fr,
    g2_coeff: Fr,
}
fn eqs(ev: &BTreeMap<String, Fr>, x: &P, vx: Fr, h: &Dom<Fr>, k: &Dom<Fr>, m: &VerifierFirstMsg<Fr>, beta: Fr, gamma: Fr) -> Eqs {
    let e = |l: &str| ev[l];
    let outer = e("mask") + bivar(h, m.alpha, beta) * (m.eta_a * e("z_a") + m.eta_b * e("z_b") + m.eta_c * e("z_a") * e("z_b"))
        - e("t") * (vx * e("w") + x.evaluate(&beta))
        - e("h_1") * h.evaluate_vanishing_polynomial(beta);
    let den = |n: &str| m.alpha * beta - m.alpha * e(&format!("{}_row", n)) - beta * e(&format!("{}_col", n)) + e(&format!("{}_row_col", n));
    let (da, db, dc) = (den("a"), den("b"), den("c"));
    let v = h.evaluate_vanishing_polynomial(m.alpha) * h.evaluate_vanishing_polynomial(beta);
    let a = (m.eta_a * e("a_val") * db * dc + m.eta_b * e("b_val") * da * dc + m.eta_c * e("c_val") * da * db) * v;
    let b = da * db * dc;
    let ks = Fr::from(k.size() as u64);
    let inner = a - b * e("t") * ks.inverse().unwrap() - e("h_2") * k.evaluate_vanishing_polynomial(gamma);
    Eqs { outer, g1_coeff: beta, inner, g2_coeff: b * gamma }
}
#[derive(Clone, Copy, PartialEq, Debug)]
enum Mode {
    Plain,
    /// outer sum fixed by a too large g_1
    BigG1,
    /// outer sum fixed by another t, inner one by a too large g_2
    BigG2,
    /// outer sum fixed by another t, inner one left wrong
    OtherT,
    /// evaluations changed so that the verifier's equations hold
    Patched,
}
fn forge(s: &mut Src, srs: &UniversalParams<E>, k: &MK<E>, c: &Circ<Fr>, claim: &[Fr], mode: Mode, shift_base: usize, rng: &mut TapeRng) -> Option<Vec<u8>> {
    let pk = &k.pk;
    let info = pk.index.index_info;
    let st = AHP::<Fr>::prover_init(&pk.index, c.clone()).ok()?;
    let mut fs = FiatShamirRng::from_seed(&to_bytes![&k.vk, &claim.to_vec()].unwrap());
    let (st, first) = AHP::<Fr>::prover_first_round(st, rng).ok()?;
    let mut b = Back { srs, vk: &k.vk, shift_base, polys: BTreeMap::new(), bounds: BTreeMap::new() };
    let _ = b.vk;
    for p in pk.index.iter() {
        b.polys.insert(p.label().clone(), p.polynomial().clone());
    }
    let c1: Vec<Commitment<E>> = first.iter().map(|p| b.add(p.label(), p.polynomial().clone(), None)).collect();
    fs.absorb(&to_bytes![c1].unwrap());
    let (vs, m1) = AHP::<Fr>::verifier_first_round(info, &mut fs).ok()?;
    let (h, kd) = (vs.domain_h, vs.domain_k);
    let (st, second) = AHP::<Fr>::prover_second_round(st, &m1).ok()?;
    let (mut t, mut g1, mut h1) = (second.t.polynomial().clone(), second.g_1.polynomial().clone(), second.h_1.polynomial().clone());
    // public part of z, as the prover used it
    let mut xs = vec![Fr::one()];
    xs.extend(c.pubs.iter());
    let dx: Dom<Fr> = Dom::new(xs.len().max(2))?;
    xs.resize(dx.size(), Fr::zero());
    let x = P::from_coefficients_vec(dx.ifft(&xs));
    // constant remainder of the outer sum
    let at = Fr::rand(rng);
    let r0 = {
        let e = |l: &str| b.polys[l].evaluate(&at);
        e("mask") + bivar(&h, m1.alpha, at) * (m1.eta_a * e("z_a") + m1.eta_b * e("z_b") + m1.eta_c * e("z_a") * e("z_b"))
            - t.evaluate(&at) * (dx.evaluate_vanishing_polynomial(at) * e("w") + x.evaluate(&at))
            - h1.evaluate(&at) * h.evaluate_vanishing_polynomial(at)
            - at * g1.evaluate(&at)
    };
    let mut delta = Fr::zero();
    match mode {
        Mode::BigG1 => {
            let mut v = vec![Fr::zero(); h.size()];
            v[h.size() - 1] = r0;
            g1 = &g1 + &P::from_coefficients_vec(v);
            h1 = &h1 - &P::from_coefficients_vec(vec![r0]);
        }
        Mode::BigG2 | Mode::OtherT => {
            let z = &b.polys["w"].mul_by_vanishing_poly(dx) + &x;
            let (hz, rz) = z.divide_by_vanishing_poly(h)?;
            let z0 = *rz.coeffs.first()?;
            let cc = r0 * z0.inverse()?;
            delta = cc;
            t = &t + &P::from_coefficients_vec(vec![cc]);
            h1 = &h1 - &hz.muls(cc);
            g1 = &g1 - &P::from_coefficients_slice(rz.coeffs.get(1..).unwrap_or(&[])).muls(cc);
        }
        _ => {}
    }
    let bounds2 = [None, Some(h.size() - 2), None];
    let c2: Vec<Commitment<E>> = [("t", t), ("g_1", g1), ("h_1", h1)].iter().zip(bounds2.iter()).map(|((l, p), d)| b.add(l, p.clone(), *d)).collect();
    fs.absorb(&to_bytes![c2].unwrap());
    let (vs, m2): (_, VerifierSecondMsg<Fr>) = AHP::<Fr>::verifier_second_round(vs, &mut fs).ok()?;
    let third = AHP::<Fr>::prover_third_round(st, &m2).ok()?;
    let (mut g2, mut h2) = (third.g_2.polynomial().clone(), third.h_2.polynomial().clone());
    if mode == Mode::BigG2 {
        let d = delta * Fr::from(kd.size() as u64).inverse()?;
        let mut v = vec![Fr::zero(); kd.size()];
        v[kd.size() - 1] = -d;
        g2 = &g2 + &P::from_coefficients_vec(v);
        let den = |n: &str, b: &Back| {
            let p = |x: &str| b.polys[&format!("{}_{}", n, x)].clone();
            &(&(&P::from_coefficients_vec(vec![m1.alpha * m2.beta]) - &p("row").muls(m1.alpha)) - &p("col").muls(m2.beta)) + &p("row_col")
        };
        let bb = den("a", &b).naive_mul(&den("b", &b)).naive_mul(&den("c", &b));
        h2 = &h2 + &bb.muls(d);
    }
    let bounds3 = [Some(kd.size() - 2), None];
    let c3: Vec<Commitment<E>> = [("g_2", g2), ("h_2", h2)].iter().zip(bounds3.iter()).map(|((l, p), d)| b.add(l, p.clone(), *d)).collect();
    fs.absorb(&to_bytes![c3].unwrap());
    let vs = AHP::<Fr>::verifier_third_round(vs, &mut fs).ok()?;
    let qs = AHP::<Fr>::verifier_query_set(&vs);
    let (beta, gamma) = (m2.beta, vs.gamma?);
    let mut ev: BTreeMap<String, Fr> = qs.iter().map(|(l, p)| (l.to_string(), b.polys[&l.to_string()].evaluate(p))).collect();
    if mode == Mode::Patched {
        // one or more claims wrong, then repair the equations with g_1 / g_2
        let names: Vec<String> = ev.keys().cloned().collect();
        for _ in 0..s.below(3) {
            let n = s.pick(&names).clone();
            s.label(format!("patched {}", n));
            *ev.get_mut(&n).unwrap() += s.nonzero::<Fr>();
        }
        // the verifier uses the claimed inputs
        let mut xs = vec![Fr::one()];
        xs.extend(claim.iter());
        let dx: Dom<Fr> = Dom::new(xs.len().max(2))?;
        xs.resize(dx.size(), Fr::zero());
        let x = P::from_coefficients_vec(dx.ifft(&xs));
        let q = eqs(&ev, &x, dx.evaluate_vanishing_polynomial(beta), &h, &kd, &m1, beta, gamma);
        ev.insert("g_1".into(), q.outer * q.g1_coeff.inverse()?);
        ev.insert("g_2".into(), q.inner * q.g2_coeff.inverse()?);
    }
    let evaluations: Vec<Fr> = qs.iter().map(|(l, _)| ev[&l.to_string()]).collect();
    fs.absorb(&evaluations);
    let ch: Fr = u128::rand(&mut fs).into();
    let mut by: BTreeMap<Fr, Vec<String>> = BTreeMap::new();
    for (l, p) in qs.iter() {
        by.entry(*p).or_default().push(l.to_string());
    }
    let opening_proofs = by
        .iter()
        .map(|(z, ls)| {
            let mut ls: Vec<&String> = ls.iter().collect();
            ls.sort();
            b.open(&ls, *z, ch)
        })
        .collect();
    Some(ser(&Proof::<E> { commitments: vec![c1, c2, c3], evaluations, opening_proofs }))
}
fn forgers(s: &mut Src) -> R {
    let c = g(s);
    let b = match gen_violation(s, &c) {
        Some(b) => b,
        None => return Ok(()),
    };
    let mut rng = s.rng();
    let k = setup::<M>(&b, &mut rng)?;
    // the forger holds a universal string at least as long as the key was made from
    let deg = AHP::<Fr>::max_degree(k.pk.index.index_info.num_constraints, k.pk.index.index_info.num_variables, k.pk.index.index_info.num_non_zeros).unwrap();
    let log = (deg as f64).log2().ceil() as u32;
    let (mut kk, mut ss) = (None, None);
    for l in log..log + 2 {
        if let Ok((pk, vk)) = index(srs::<E>(l.max(2)), b.blank()) {
            if s.bool() || kk.is_none() {
                ss = Some(srs::<E>(l.max(2)));
                kk = Some(MK { pk, vk });
            }
        }
    }
    let (k, u) = match (kk, ss) {
        (Some(k), Some(u)) => (k, u),
        _ => return Ok(()),
    };
    let full = u.powers_of_g.len() - 1;
    // the forger's own machinery is complete on the true statement
    if c.auxs == b.auxs && c.pubs == b.pubs {
        let (kc, _) = (setup::<M>(&c, &mut rng)?, 0);
        for base in [deg, full] {
            if let Ok(Some(p)) = quiet(|| forge(s, u, &kc, &c, &c.pubs, Mode::Plain, base, &mut rng)) {
                if M::accepts(&kc, &p, &c.pubs) {
                    s.label("machinery live");
                }
            }
        }
    }
    for mode in [Mode::Plain, Mode::BigG1, Mode::BigG2, Mode::OtherT, Mode::Patched] {
        for base in [full, deg] {
            if base == full && deg == full {
                continue;
            }
            let f = quiet(|| forge(s, u, &k, &b, &b.pubs, mode, base, &mut rng));
            if let Ok(Some(p)) = f {
                s.label(format!("forged {:?}", mode));
                ensure!(!M::accepts(&k, &p, &b.pubs), "forgery-accepted", "{:?} (shift from {}): a proof of a violated statement is accepted", mode, base);
            }
        }
    }
    // true assignment, other claimed inputs
    if !c.pubs.is_empty() {
        let mut x = c.pubs.clone();
        let i = s.below(x.len());
        x[i] += s.nonzero::<Fr>();
        let mut d = c.clone();
        d.pubs = x.clone();
        if d.sat() {
            return Ok(());
        }
        let kc = setup::<M>(&c, &mut rng)?;
        for mode in [Mode::Plain, Mode::Patched] {
            for base in [full, deg] {
                if let Ok(Some(p)) = quiet(|| forge(s, u, &kc, &c, &x, mode, base, &mut rng)) {
                    s.label("other inputs claimed");
                    ensure!(!M::accepts(&kc, &p, &x), "forgery-accepted", "{:?}: other public inputs are accepted", mode);
                }
            }
        }
    }
    Ok(())
}
/// a prover that leaves out trailing zero inputs of the circuit
fn fewer_inputs(s: &mut Src) -> R {
    let mut o = Opts { max_con: 4, max_aux: 4, min_pub: 1, max_pub: 6, ..Opts::default() };
    o.trivial = true;
    let mut c: Circ<Fr> = gen_circ(s, &o);
    // add public inputs of value zero
    let extra = s.range(1, 2);
    for _ in 0..extra {
        let i = c.pubs.len();
        c.pubs.push(Fr::zero());
        c.steps.push(Step::Pub(i));
    }
    let mut rng = s.rng();
    let k = setup::<M>(&c, &mut rng)?;
    let p = prove::<M>(&k, &c, &mut rng)?;
    ensure!(M::accepts(&k, &p, &c.pubs), "rejected", "honest proof rejected");
    for drop in 1..=extra {
        let n = c.pubs.len() - drop;
        let short = c.pubs[..n].to_vec();
        ensure!(!M::accepts(&k, &p, &short), "short-inputs-accepted", "accepted with trailing zero inputs left out");
        // prover side: same circuit, without allocating them
        let mut d = c.clone();
        d.pubs.truncate(n);
        d.steps.retain(|x| !matches!(x, Step::Pub(i) if *i >= n));
        let mut pk = k.pk.clone();
        pk.index.index_info.num_public_inputs = n;
        if let Ok(Ok(p)) = quiet(|| create_random_proof(&pk, d.clone(), &mut rng)) {
            s.label("short prover");
            ensure!(!M::accepts(&k, &ser(&p), &short), "short-inputs-accepted", "a proof made without the trailing zero inputs is accepted");
        }
    }
    Ok(())
}
fn main() {
    vharness::main(
        "P07",
        "A case is a random rank-1 system with a false claim derived from it (changed publics, violated constraint, other key, altered proof, forged proof); non-trivial = the system has a non-empty constraint.",
        vec![
            sub("wrong-public", 120, 4000, pubs),
            sub("violating", 250, 8000, viol),
            sub("altered", 250, 10000, alt),
            sub("other-key", 100, 3000, other_key),
            sub("claims", 60, 2000, claims),
            sub("bound", 100, 4000, bound::<vharness::clear::Clear>),
            sub("bound-bls", 20, 500, bound::<E>),
            sub("transcript", 30, 800, vharness::transcripts::marlin),
            sub("forgers", 120, 6000, forgers),
            sub("fewer-inputs", 100, 3000, fewer_inputs),
        ],
    )
}
