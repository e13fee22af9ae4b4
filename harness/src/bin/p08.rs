//! P08: Marlin's polynomial commitments.
use ark_bls12_381::{Bls12_381 as E, Fr, G1Affine, G1Projective};
use ark_ec::{msm::VariableBaseMSM, AffineCurve, ProjectiveCurve};
use ark_ff::{One, PrimeField, Zero};
use ark_poly::{univariate::DensePolynomial as Poly, Polynomial, UVPolynomial};
use std::collections::{BTreeMap, BTreeSet};
use vharness::*;
use zkp_marlin::verif_hooks::pc::*;

type P = Poly<Fr>;
fn gen_poly(s: &mut Src, max: usize) -> P {
    let d = s.size(max);
    let mut v: Vec<Fr> = (0..=d).map(|_| s.field()).collect();
    match s.below(7) {
        0 => {
            s.label("zero");
            v.clear();
        }
        1 => {
            s.label("constant");
            v.truncate(1);
        }
        2 => {
            s.label("low coefficients zero");
            let k = s.below(v.len() + 1);
            v.iter_mut().take(k).for_each(|x| *x = Fr::zero());
        }
        3 => {
            s.label("monomial");
            let k = v.len() - 1;
            v.iter_mut().take(k).for_each(|x| *x = Fr::zero());
        }
        4 => {
            s.label("full degree");
            while v.len() < max {
                v.push(s.field());
            }
            v.truncate(max);
            v.push(s.nonzero());
        }
        _ => {}
    }
    P::from_coefficients_vec(v)
}
struct Set {
    pp: UniversalParams<E>,
    ck: CommitterKey<E>,
    vk: VerifierKey<E>,
    sup: usize,
}
fn setup(s: &mut Src, rng: &mut TapeRng) -> Result<Set, Fail> {
    let max = s.range(1, 24);
    let sup = if s.bool() { max } else { s.range(1, max) };
    if sup < max {
        s.label("trimmed");
    }
    let pp = err(PC::<E>::setup(max, rng))?;
    let (ck, vk) = err(PC::<E>::trim(&pp, sup))?;
    Ok(Set { pp, ck, vk, sup })
}
fn err<T>(r: Result<T, Error>) -> Result<T, Fail> {
    r.map_err(|e| Fail { sig: "error".into(), msg: format!("{:?}", e) })
}
fn gen_polys(s: &mut Src, k: &Set, n: usize) -> Vec<LabeledPolynomial<'static, Fr>> {
    let mut names: Vec<usize> = (0..n).collect();
    for i in (1..n).rev() {
        names.swap(i, s.below(i + 1));
    }
    (0..n)
        .map(|i| {
            let p = gen_poly(s, k.sup);
            let b = if s.bool() { Some(s.range(p.degree(), k.sup)) } else { None };
            let h = match s.below(3) {
                0 => {
                    s.label("hiding");
                    Some(if s.chance(1, 4) { k.sup } else { s.range(1, k.sup.min(3)) })
                }
                _ => None,
            };
            if b.is_some() {
                s.label(if b == Some(p.degree()) { "tight bound" } else { "loose bound" });
            }
            s.note(format!("p{}: deg {} bound {:?} hiding {:?}; ", names[i], p.degree(), b, h));
            LabeledPolynomial::new_owned(format!("p{}", names[i]), p, b, h)
        })
        .collect()
}
fn relabel(c: &LabeledCommitment<E>, b: Option<usize>) -> LabeledCommitment<E> {
    LabeledCommitment::new(c.label().clone(), c.commitment().clone(), b)
}
fn ok(r: std::result::Result<Result<bool, Error>, String>) -> bool {
    matches!(r, Ok(Ok(true)))
}
fn random_point(s: &mut Src, rng: &mut TapeRng) -> Fr {
    use ark_ff::UniformRand;
    let _ = s;
    Fr::rand(rng)
}
fn single(s: &mut Src) -> R {
    let mut rng = s.rng();
    let k = setup(s, &mut rng)?;
    let n = s.range(1, 4);
    let ps = gen_polys(s, &k, n);
    let (cs, rs) = err(PC::<E>::commit(&k.ck, &ps, Some(&mut rng)))?;
    // an edge point, or a random one
    let generic = s.bool();
    let z: Fr = if generic { random_point(s, &mut rng) } else { s.field() };
    let ch = random_point(s, &mut rng);
    let vs: Vec<Fr> = ps.iter().map(|p| p.evaluate(z)).collect();
    let pr = err(PC::<E>::open(&k.ck, &ps, z, ch, &rs))?;
    let chk = |cs: &[LabeledCommitment<E>], z: Fr, vs: &[Fr], pr: &Proof<E>, ch: Fr| ok(quiet(|| PC::<E>::check(&k.vk, cs, z, vs.to_vec(), pr, ch)));
    ensure!(chk(&cs, z, &vs, &pr, ch), "true-rejected", "the true values at the point are refused");
    if ps.iter().any(|p| !p.polynomial().is_zero()) {
        s.nontrivial();
    }
    // other values
    let i = s.below(n);
    let mut w = vs.clone();
    w[i] += s.nonzero::<Fr>();
    ensure!(!chk(&cs, z, &w, &pr, ch), "value-accepted", "another value is accepted for polynomial {}", i);
    if n > 1 {
        let j = (i + 1 + s.below(n - 1)) % n;
        let mut w = vs.clone();
        let d: Fr = s.nonzero();
        w[i] += d;
        w[j] -= d;
        ensure!(!chk(&cs, z, &w, &pr, ch), "value-accepted", "cancelling wrong values are accepted");
        let mut w = vs.clone();
        w.swap(i, j);
        ensure!(w == vs || !chk(&cs, z, &w, &pr, ch), "value-accepted", "exchanged values are accepted");
    }
    // other points
    let z2 = z + s.nonzero::<Fr>();
    if ps.iter().zip(&vs).any(|(p, v)| p.evaluate(z2) != *v) {
        ensure!(!chk(&cs, z2, &vs, &pr, ch), "point-accepted", "the values are accepted at another point");
    }
    // other commitments
    let other = LabeledPolynomial::new_owned("o".into(), &ps[i].polynomial().clone() + &gen_poly(s, ps[i].degree_bound().unwrap_or(k.sup)), ps[i].degree_bound(), ps[i].hiding_bound());
    if other.evaluate(z) != vs[i] {
        let (oc, _) = err(PC::<E>::commit(&k.ck, vec![&other], Some(&mut rng)))?;
        let mut c2 = cs.clone();
        c2[i] = LabeledCommitment::new(cs[i].label().clone(), oc[0].commitment().clone(), cs[i].degree_bound());
        ensure!(!chk(&c2, z, &vs, &pr, ch), "commitment-accepted", "another polynomial's commitment is accepted");
    }
    // altered parts of the commitment
    let mut c2 = cs.clone();
    let mut cm = cs[i].commitment().clone();
    let g = G1Affine::prime_subgroup_generator();
    if s.bool() && cm.shifted_comm.is_some() {
        let sc = cm.shifted_comm.clone().unwrap();
        cm.shifted_comm = match s.below(3) {
            0 => None,
            _ => Some(Comm((sc.0.into_projective() + &g.into_projective()).into_affine())),
        };
    } else {
        cm.comm = Comm((cm.comm.0.into_projective() + &g.into_projective()).into_affine());
    }
    c2[i] = LabeledCommitment::new(cs[i].label().clone(), cm, cs[i].degree_bound());
    ensure!(!chk(&c2, z, &vs, &pr, ch), "commitment-accepted", "an altered commitment is accepted");
    // other degree bounds (they are told apart at generic points only)
    if generic && !vs[i].is_zero() {
        let b2 = s.below(k.pp.max_degree() + 1);
        if let Some(b) = cs[i].degree_bound() {
            if b2 != b {
                s.label("other bound claimed");
                let mut c2 = cs.clone();
                c2[i] = relabel(&cs[i], Some(b2));
                ensure!(!chk(&c2, z, &vs, &pr, ch), "bound-accepted", "bound {} is accepted for a commitment with bound {}", b2, b);
            }
        } else {
            let mut c2 = cs.clone();
            c2[i] = relabel(&cs[i], Some(b2));
            ensure!(!chk(&c2, z, &vs, &pr, ch), "bound-accepted", "a bound is accepted for a commitment without one");
            // a shifted part that is just the commitment again, or nothing
            for sc in [cs[i].commitment().comm.clone(), Comm(G1Affine::zero())] {
                if b2 == k.vk.max_degree && sc.0 == cs[i].commitment().comm.0 {
                    continue; // the true shift by nothing
                }
                let cm = Commitment { comm: cs[i].commitment().comm.clone(), shifted_comm: Some(sc) };
                c2[i] = LabeledCommitment::new(cs[i].label().clone(), cm, Some(b2));
                ensure!(!chk(&c2, z, &vs, &pr, ch), "bound-accepted", "a bound is accepted with a made-up shifted commitment");
            }
        }
    }
    // altered proof
    let p2 = Proof { w: (pr.w.into_projective() + &g.into_projective()).into_affine(), rand_v: pr.rand_v };
    ensure!(!chk(&cs, z, &vs, &p2, ch), "proof-accepted", "an altered opening is accepted");
    let p2 = Proof { w: pr.w, rand_v: Some(pr.rand_v.unwrap_or(Fr::zero()) + s.nonzero::<Fr>()) };
    ensure!(!chk(&cs, z, &vs, &p2, ch), "proof-accepted", "an altered blinding value is accepted");
    Ok(())
}
/// what must not be committed to
fn limits(s: &mut Src) -> R {
    let mut rng = s.rng();
    let k = setup(s, &mut rng)?;
    let d = s.range(1, k.pp.max_degree() + 4);
    let mut v: Vec<Fr> = (0..d).map(|_| s.field()).collect();
    v.push(s.nonzero());
    let p = P::from_coefficients_vec(v);
    let b = s.below(k.pp.max_degree() + 3);
    let b = if s.bool() { Some(b) } else { None };
    let h = if s.chance(1, 3) { Some(s.range(0, k.sup + 2)) } else { None };
    let good = d <= k.sup && h.map_or(true, |h| h >= 1 && h <= k.sup) && b.map_or(true, |b| d <= b && b <= k.sup);
    s.note(format!("supported {} of {} degree {} bound {:?} hiding {:?}", k.sup, k.pp.max_degree(), d, b, h));
    s.label(if good { "within limits" } else { "beyond limits" });
    s.nontrivial();
    let lp = LabeledPolynomial::new_owned("p".into(), p, b, h);
    let r = quiet(|| PC::<E>::commit(&k.ck, vec![&lp], Some(&mut rng)));
    let done = matches!(r, Ok(Ok(_)));
    ensure!(!(good && !done), "refused", "a polynomial within the limits cannot be committed to");
    ensure!(!(!good && done), "over-limit", "a polynomial beyond its bound or the supported degree is committed to");
    if k.pp.max_degree() > 0 {
        ensure!(PC::<E>::trim(&k.pp, k.pp.max_degree() + s.range(1, 3)).is_err(), "over-limit", "trimmed to more than the string holds");
    }
    Ok(())
}
fn msm(k: &Set, c: &[Fr], shift: usize) -> Option<G1Projective> {
    if c.len() + shift > k.pp.powers_of_g.len() {
        return None;
    }
    let b: Vec<_> = c.iter().map(|x| x.into_repr()).collect();
    Some(VariableBaseMSM::multi_scalar_mul(&k.pp.powers_of_g[shift..shift + b.len()], &b))
}
/// a holder of the universal string claims a bound below the degree
fn false_bound(s: &mut Src) -> R {
    let mut rng = s.rng();
    let k = setup(s, &mut rng)?;
    let max = k.pp.max_degree();
    let d = s.range(1, max);
    let mut v: Vec<Fr> = (0..d).map(|_| s.field()).collect();
    v.push(s.nonzero());
    let p = P::from_coefficients_vec(v);
    let bound = s.below(d.min(k.sup + 1));
    s.note(format!("supported {} of {} degree {} claimed bound {}", k.sup, max, d, bound));
    s.nontrivial();
    let z = random_point(s, &mut rng);
    let ch = random_point(s, &mut rng);
    let value = p.evaluate(&z);
    if value.is_zero() {
        return Ok(());
    }
    for shift in 0..=(max - d) {
        let comm = Commitment {
            comm: Comm(msm(&k, &p.coeffs, 0).unwrap().into_affine()),
            shifted_comm: Some(Comm(msm(&k, &p.coeffs, shift).unwrap().into_affine())),
        };
        let mut q = vec![Fr::zero(); max + 1];
        for (i, c) in p.coeffs.iter().enumerate() {
            q[i] += c;
            q[i + shift] += *c * ch;
        }
        let w = &P::from_coefficients_vec(q) / &P::from_coefficients_vec(vec![-z, Fr::one()]);
        let pr = Proof { w: msm(&k, &w.coeffs, 0).unwrap().into_affine(), rand_v: None };
        let lc = LabeledCommitment::new("p".into(), comm, Some(bound));
        s.label("forged shift");
        ensure!(!ok(quiet(|| PC::<E>::check(&k.vk, vec![&lc], z, vec![value], &pr, ch))), "false-bound-accepted", "degree {} passes as bounded by {} (shift {})", d, bound, shift);
    }
    Ok(())
}
fn batch(s: &mut Src) -> R {
    let mut rng = s.rng();
    let k = setup(s, &mut rng)?;
    let many = s.chance(1, 14);
    if many {
        s.label("many polynomials");
    }
    let n = if many { s.range(10, 20) } else { s.range(1, 6) };
    let ps = gen_polys(s, &k, n);
    let (cs, rs) = err(PC::<E>::commit(&k.ck, &ps, Some(&mut rng)))?;
    let pts: BTreeSet<Fr> = (0..if many && n < 14 { s.range(10, 16) } else { s.range(1, 4) }).map(|_| s.field()).collect();
    let pts: Vec<Fr> = pts.into_iter().collect();
    let mut qs: QuerySet<Fr> = BTreeSet::new();
    for p in &ps {
        for z in &pts {
            if s.chance(2, 3) {
                qs.insert((p.label().clone(), *z));
            }
        }
    }
    if qs.is_empty() {
        qs.insert((ps[0].label().clone(), pts[0]));
    }
    let ev: Evaluations<Fr> = qs.iter().map(|(l, z)| ((l.clone(), *z), ps.iter().find(|p| p.label() == l).unwrap().evaluate(*z))).collect();
    let ch = random_point(s, &mut rng);
    let pr = err(PC::<E>::batch_open(&k.ck, &ps, &qs, ch, &rs))?;
    let chk = |cs: &[LabeledCommitment<E>], qs: &QuerySet<Fr>, ev: &Evaluations<Fr>, pr: &Vec<Proof<E>>| ok(quiet(|| PC::<E>::batch_check(&k.vk, cs, qs, ev, pr, ch)));
    ensure!(chk(&cs, &qs, &ev, &pr), "true-rejected", "a true batch is refused");
    let used: BTreeMap<Fr, usize> = qs.iter().fold(BTreeMap::new(), |mut m, (_, z)| {
        *m.entry(*z).or_insert(0) += 1;
        m
    });
    s.label(format!("points={}", used.len()));
    if qs.len() > 1 {
        s.nontrivial();
    }
    // each single claim matters
    for key in ev.keys() {
        let mut e2 = ev.clone();
        *e2.get_mut(key).unwrap() += s.nonzero::<Fr>();
        ensure!(!chk(&cs, &qs, &e2, &pr), "value-accepted", "one wrong value among {} is accepted", ev.len());
    }
    // two wrong ones
    if ev.len() > 1 {
        let keys: Vec<_> = ev.keys().cloned().collect();
        let (a, b) = (s.below(keys.len()), s.below(keys.len()));
        if a != b {
            let mut e2 = ev.clone();
            let d: Fr = s.nonzero();
            *e2.get_mut(&keys[a]).unwrap() += d;
            *e2.get_mut(&keys[b]).unwrap() -= d;
            ensure!(!chk(&cs, &qs, &e2, &pr), "value-accepted", "two wrong values are accepted");
        }
    }
    // missing, surplus, exchanged, altered openings
    let mut p2 = pr.clone();
    p2.pop();
    ensure!(!chk(&cs, &qs, &ev, &p2), "proof-list-accepted", "a batch with a missing opening is accepted");
    let mut p2 = pr.clone();
    p2.push(pr[0].clone());
    ensure!(!chk(&cs, &qs, &ev, &p2), "proof-list-accepted", "a batch with a surplus opening is accepted");
    if pr.len() > 1 {
        let (a, b) = (s.below(pr.len()), s.below(pr.len()));
        let mut p2 = pr.clone();
        p2.swap(a, b);
        if p2[a].w != pr[a].w {
            ensure!(!chk(&cs, &qs, &ev, &p2), "proof-accepted", "exchanged openings are accepted");
        }
    }
    for i in 0..pr.len() {
        let mut p2 = pr.clone();
        p2[i].w = (pr[i].w.into_projective() + &G1Affine::prime_subgroup_generator().into_projective()).into_affine();
        ensure!(!chk(&cs, &qs, &ev, &p2), "proof-accepted", "an altered opening ({} of {}) is accepted", i, pr.len());
    }
    // missing claim or commitment
    let gone = qs.iter().nth(s.below(qs.len())).unwrap().clone();
    let mut e2 = ev.clone();
    e2.remove(&gone);
    ensure!(!chk(&cs, &qs, &e2, &pr), "missing-accepted", "a batch with a missing value is accepted");
    let c2: Vec<_> = cs.iter().filter(|c| *c.label() != gone.0).cloned().collect();
    ensure!(!chk(&c2, &qs, &ev, &pr), "missing-accepted", "a batch with a missing commitment is accepted");
    Ok(())
}
fn main() {
    vharness::main(
        "P08",
        "A case is a universal string, trimmed keys and random polynomials with bounds and hiding, committed and opened, and false claims about them; non-trivial = a non-zero polynomial, a batch of more than one claim, or an explicit limit.",
        vec![sub("single", 400, 12000, single), sub("limits", 300, 8000, limits), sub("false-bound", 200, 6000, false_bound), sub("batch", 200, 6000, batch)],
    )
}
