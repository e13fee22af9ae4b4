//! P19: vector-commitment proofs bind positions to values.
use ark_bls12_381::{Fr, G1Affine, G1Projective};
use ark_ec::{AffineCurve, ProjectiveCurve};
use ark_ff::{Field, One, PrimeField, UniformRand, Zero};
use ark_poly::univariate::DensePolynomial;
use ark_poly::{EvaluationDomain, GeneralEvaluationDomain, Polynomial, UVPolynomial};
use vharness::asvc::*;
use vharness::*;

fn no(sig: &str, what: &str, r: Result<Result<bool, zkp_r1cs::SynthesisError>, String>) -> R {
    ensure!(!matches!(r, Ok(Ok(true))), sig, "accepted: {}", what);
    Ok(())
}
fn point(s: &mut Src, p: G1Affine, others: &[G1Affine]) -> G1Affine {
    let mut r = s.rng();
    match s.below(6) {
        0 => G1Affine::zero(),
        1 => -p,
        2 => (p.into_projective() + &G1Projective::rand(&mut r)).into_affine(),
        3 => (p.into_projective() + &p.into_projective()).into_affine(),
        4 => *s.pick(others),
        _ => (p.into_projective() + &s.pick(others).into_projective()).into_affine(),
    }
}
fn lin(c: &Ctx, p: u32) -> DensePolynomial<Fr> {
    DensePolynomial::from_coefficients_vec(vec![-c.omega.pow(&[p as u64]), Fr::one()])
}
/// (Phi - R) / A for the claims' interpolation R and the product A over some of the positions
fn partial(c: &Ctx, v: &[Fr], vals: &[Fr], ps: &[u32], keep: &[u32]) -> Proof<E> {
    let mut f = v.to_vec();
    let d: GeneralEvaluationDomain<Fr> = EvaluationDomain::<Fr>::new(c.n).unwrap();
    d.ifft_in_place(&mut f);
    let f = DensePolynomial::from_coefficients_vec(f);
    let one = || DensePolynomial::from_coefficients_vec(vec![Fr::one()]);
    let mut r = DensePolynomial::from_coefficients_vec(vec![]);
    for (p, x) in ps.iter().zip(vals) {
        let l = ps.iter().filter(|q| *q != p).fold(one(), |a, q| a.naive_mul(&lin(c, *q)));
        let y = *x * l.evaluate(&c.omega.pow(&[*p as u64])).inverse().unwrap();
        r = &r + &DensePolynomial::from_coefficients_vec(l.coeffs.iter().map(|z| *z * y).collect());
    }
    let a = keep.iter().fold(one(), |a, q| a.naive_mul(&lin(c, *q)));
    let q = &(&f - &r) / &a;
    let mut w = G1Projective::zero();
    for (x, g) in q.coeffs.iter().zip(&c.p.proving_key.powers_of_g1) {
        w += &g.mul(x.into_repr());
    }
    Proof { w: w.into_affine() }
}
fn claims(s: &mut Src) -> R {
    let c = pick_ctx(s);
    let v0 = vector(s, &c);
    let v = full(&v0, c.n);
    let mut ps = positions(s, c.n);
    ps.truncate(if s.chance(1, 4) { 40 } else { 8 });
    s.note(format!("n={} positions={:?}", c.n, ps));
    s.nontrivial();
    let com = commit::<E>(&c.p.proving_key, v0.clone()).unwrap();
    let w = if s.bool() {
        prove_pos::<E>(&c.p.proving_key, v0.clone(), ps.clone()).unwrap()
    } else {
        let w = ps.iter().map(|p| prove_pos::<E>(&c.p.proving_key, v0.clone(), vec![*p]).unwrap()).collect();
        aggregate_proofs::<E>(ps.clone(), w, c.omega).unwrap()
    };
    let vals = at(&v, &ps);
    let ver = |co: &Commitment<E>, vals: &[Fr], ps: &[u32], w: &Proof<E>| quiet(|| verify_pos::<E>(&c.p.verification_key, co, vals.to_vec(), ps.to_vec(), w, c.omega));
    ensure!(matches!(ver(&com, &vals, &ps, &w), Ok(Ok(true))), "proof-rejected", "an honest proof is refused");
    let g = &c.p.proving_key.powers_of_g1;
    for _ in 0..6 {
        let k = s.below(ps.len());
        let d: Fr = s.nonzero();
        match s.below(14) {
            12 | 13 => {
                // a proof that covers but some of the claimed positions
                let keep: Vec<u32> = match s.below(3) {
                    0 => ps[..k].to_vec(),
                    1 => ps[k + 1..].to_vec(),
                    _ => ps.iter().enumerate().filter(|x| x.0 != k).map(|x| *x.1).collect(),
                };
                let mut x = vals.clone();
                for (j, p) in ps.iter().enumerate() {
                    if !keep.contains(p) && (j == k || s.bool()) {
                        x[j] += s.nonzero::<Fr>();
                    }
                }
                s.label("proof of fewer positions");
                let w = partial(&c, &v, &x, &ps, &keep);
                no("partial-proof", "false claims at positions a proof leaves out", ver(&com, &x, &ps, &w))?;
            }
            0 => {
                let mut x = vals.clone();
                x[k] += d;
                s.label("wrong value");
                no("wrong-value", "a wrong value", ver(&com, &x, &ps, &w))?;
            }
            1 if ps.len() > 1 => {
                let j = (k + 1) % ps.len();
                let mut x = vals.clone();
                x.swap(k, j);
                if x != vals {
                    s.label("values exchanged");
                    no("wrong-value", "values of two positions exchanged", ver(&com, &x, &ps, &w))?;
                }
                // a value moved from one claim to another
                let mut x = vals.clone();
                x[k] += d;
                x[j] -= d;
                no("wrong-value", "two values shifted", ver(&com, &x, &ps, &w))?;
            }
            2 => {
                let mut q = ps.clone();
                q[k] = s.below(c.n) as u32;
                if q[k] != ps[k] {
                    s.label("wrong position");
                    // a true claim would still need another proof; only false ones matter
                    if v[q[k] as usize] != vals[k] {
                        no("wrong-position", "a wrong position", ver(&com, &vals, &q, &w))?;
                    }
                }
            }
            3 => {
                let mut q = ps.clone();
                q[k] += c.n as u32 * s.range(1, 3) as u32;
                s.label("position beyond the vector");
                no("out-of-range", "a position beyond the vector", ver(&com, &vals, &q, &w))?;
            }
            4 => {
                let mut x = vals.clone();
                let mut q = ps.clone();
                s.label("missing or extra entry");
                match s.below(4) {
                    0 => x.push(d),
                    1 => {
                        x.pop();
                    }
                    2 => q.push(s.below(c.n) as u32),
                    _ => {
                        q.pop();
                    }
                }
                no("list-lengths", "lists of different lengths", ver(&com, &x, &q, &w))?;
            }
            5 => {
                // the same position claimed twice, with two values
                let mut x = vals.clone();
                let mut q = ps.clone();
                q.push(ps[k]);
                x.push(vals[k] + d);
                s.label("position claimed twice");
                no("repeated-position", "a position claimed with two values", ver(&com, &x, &q, &w))?;
                let mut one = vec![vals[k] + d, vals[k]];
                if s.bool() {
                    one.reverse();
                }
                let w1 = prove_pos::<E>(&c.p.proving_key, v0.clone(), vec![ps[k]]).unwrap();
                no("repeated-position", "a position claimed with two values", ver(&com, &one, &[ps[k], ps[k]], &w1))?;
            }
            6 => {
                let q = Proof::<E> { w: point(s, w.w, g) };
                if q.w != w.w {
                    s.label("altered proof");
                    no("altered-proof", "another proof", ver(&com, &vals, &ps, &q))?;
                }
            }
            7 => {
                let q = Commitment::<E> { commit: point(s, com.commit, g) };
                if q.commit != com.commit {
                    s.label("altered commitment");
                    no("altered-commitment", "another commitment", ver(&q, &vals, &ps, &w))?;
                }
            }
            8 => {
                // the commitment and proof of another vector differing at a claimed position
                let mut u = v.clone();
                u[ps[k] as usize] += d;
                s.label("another vector");
                let co = commit::<E>(&c.p.proving_key, u.clone()).unwrap();
                let wu = prove_pos::<E>(&c.p.proving_key, u.clone(), ps.clone()).unwrap();
                no("other-vector", "another vector's proof", ver(&com, &at(&u, &ps), &ps, &wu))?;
                no("other-vector", "another vector's proof", ver(&com, &vals, &ps, &wu).map(|r| r.map(|b| b && wu.w != w.w)))?;
                no("other-vector", "another vector's commitment", ver(&co, &vals, &ps, &w))?;
            }
            9 => {
                // an extra claim not covered by the proof
                if ps.len() < c.n {
                    let e = (0..c.n as u32).find(|e| !ps.contains(e)).unwrap();
                    let mut q = ps.clone();
                    q.push(e);
                    let mut x = vals.clone();
                    x.push(v[e as usize] + d);
                    s.label("extra claim");
                    no("extra-claim", "an extra false claim", ver(&com, &x, &q, &w))?;
                    let wq = prove_pos::<E>(&c.p.proving_key, v0.clone(), q.clone()).unwrap();
                    no("extra-claim", "an extra false claim", ver(&com, &x, &q, &wq))?;
                }
            }
            10 => {
                let c2 = ctx(c.asked, 1_000_003 + s.below(2) as u64);
                let varies = v.iter().any(|x| *x != v[0]);
                let r = quiet(|| verify_pos::<E>(&c2.p.verification_key, &com, vals.clone(), ps.clone(), &w, c.omega));
                s.label("another key");
                // (the zero vector commits to the identity under every key)
                if varies || !v[0].is_zero() {
                    no("other-key", "another key", r)?;
                }
            }
            _ => {
                // an update without the matching commitment update, and the reverse
                let j = ps[k];
                let upk = &c.p.proving_key.update_keys;
                let co = update_commit::<E>(&com, d, j, &upk[j as usize], c.omega, c.n).unwrap();
                s.label("update of the commitment only");
                no("stale-claim", "the old value against the updated commitment", ver(&co, &vals, &ps, &w))?;
                let w1 = prove_pos::<E>(&c.p.proving_key, v0.clone(), vec![j]).unwrap();
                let w2 = update_proof::<E>(&w1, d, j, j, &upk[j as usize], &upk[j as usize], c.omega, c.n).unwrap();
                no("stale-claim", "the new value against the old commitment", ver(&com, &[vals[k] + d], &[j], &w2))?;
                no("stale-claim", "the old value against the updated commitment", ver(&co, &[vals[k]], &[j], &w2))?;
            }
        }
    }
    Ok(())
}
/// an update key is determined by its position: anything else is refused
fn update_keys(s: &mut Src) -> R {
    let c = pick_ctx(s);
    let vk = &c.p.verification_key;
    let keys = &c.p.proving_key.update_keys;
    let i = s.below(c.n);
    s.nontrivial();
    s.note(format!("n={} i={}", c.n, i));
    let ver = |p: u32, k: &UpdateKey<E>| quiet(|| verify_upk::<E>(vk, p, k, c.omega));
    let k = &keys[i];
    ensure!(matches!(ver(i as u32, k), Ok(Ok(true))), "update-key-rejected", "a genuine update key is refused");
    let pts: Vec<G1Affine> = keys.iter().flat_map(|k| vec![k.ai, k.ui]).chain(c.p.proving_key.powers_of_g1.iter().cloned()).collect();
    for _ in 0..4 {
        let (mut a, mut u) = (k.ai, k.ui);
        match s.below(7) {
            // made to fit but one of the two equations
            5 => {
                let d: Fr = s.nonzero();
                let g = &c.p.proving_key.powers_of_g1;
                let o = c.omega.pow(&[i as u64]);
                u = (k.ui.into_projective() + &g[0].mul(d.into_repr())).into_affine();
                // l = g^(u (tau - omega^i)) + g
                let l = (g[1].into_projective() - &g[0].mul(o.into_repr())).into_affine().mul(d.into_repr());
                let f = Fr::from(c.n as u64) * o.inverse().unwrap();
                a = (k.ai.into_projective() + &l.into_affine().mul(f.into_repr())).into_affine();
            }
            6 => {
                let d: Fr = s.nonzero();
                u = (k.ui.into_projective() + &s.pick(&pts).mul(d.into_repr())).into_affine();
            }
            0 => a = point(s, a, &pts),
            1 => u = point(s, u, &pts),
            2 => {
                a = point(s, a, &pts);
                u = point(s, u, &pts);
            }
            3 => {
                // both scaled alike
                let d: Fr = s.nonzero::<Fr>() + Fr::one();
                a = a.mul(d.into_repr()).into_affine();
                u = u.mul(d.into_repr()).into_affine();
            }
            _ => {
                // the pair another position has: a valid key of position j
                let j = s.below(c.n);
                a = keys[j].ai;
                if s.bool() {
                    u = keys[j].ui;
                }
            }
        }
        if a != k.ai || u != k.ui {
            let q = UpdateKey::<E> { ai: a, ui: u };
            no("forged-update-key", "another update key", ver(i as u32, &q))?;
        }
    }
    let p = i as u32 + c.n as u32 * s.range(1, 3) as u32;
    no("update-key-out-of-range", "a position beyond the vector", ver(p, k))?;
    let j = s.below(c.n) as u32;
    if j as usize != i {
        no("forged-update-key", "a key of another position", ver(j, k))?;
    }
    Ok(())
}
fn main() {
    vharness::main(
        "P19",
        "A case is a random vector, commitment and position proof with false claims derived from it (values, positions, lengths, repeated positions, proof, commitment, key, other vectors, stale updates) or an update key that is not the position's; every case is non-trivial.",
        vec![sub("claims", 500, 12000, claims), sub("update-keys", 250, 5000, update_keys)],
    )
}
