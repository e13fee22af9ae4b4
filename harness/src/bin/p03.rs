//! P03: Groth16 soundness and conformance to the trapdoor definition.
use ark_bls12_381::{Bls12_381, Fr, G1Affine, G1Projective, G2Affine, G2Projective};
use ark_ec::{AffineCurve, ProjectiveCurve};
use ark_ff::{FftField, Field, One, PrimeField, UniformRand, Zero};
use rand::RngCore;
use vharness::circ::*;
use vharness::*;
use zkp_groth16::generator::*;
use zkp_groth16::prover::*;
use zkp_groth16::*;

type E = Bls12_381;

fn params(c: &Circ<Fr>, rng: &mut TapeRng) -> Result<Parameters<E>, Fail> {
    generate_random_parameters::<E, _, _>(c.blank(), rng).map_err(|e| Fail { sig: "setup-error".into(), msg: format!("{:?}", e) })
}
fn prove(p: &Parameters<E>, c: &Circ<Fr>, rng: &mut TapeRng) -> Result<Proof<E>, Fail> {
    create_random_proof(p, c.clone(), rng).map_err(|e| Fail { sig: "prove-error".into(), msg: format!("{:?}", e) })
}
fn accepts(vk: &VerifyKey<E>, proof: &Proof<E>, x: &[Fr]) -> bool {
    quiet(|| matches!(verify_proof(&prepare_verifying_key(vk), proof, x), Ok(true))).unwrap_or(false)
}

/// A generator whose every 64-bit word is the same: what is drawn does not depend on when.
#[derive(Clone)]
struct ConstRng(u64);
impl RngCore for ConstRng {
    fn next_u32(&mut self) -> u32 {
        self.0 as u32
    }
    fn next_u64(&mut self) -> u64 {
        self.0
    }
    fn fill_bytes(&mut self, d: &mut [u8]) {
        for c in d.chunks_mut(8) {
            let b = self.0.to_le_bytes();
            c.copy_from_slice(&b[..c.len()]);
        }
    }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), rand::Error> {
        self.fill_bytes(d);
        Ok(())
    }
}
/// a constant word for which sampling a scalar, a G1 and a G2 point terminates
fn const_rng(s: &mut Src) -> ConstRng {
    use ark_bls12_381::{Fq, Fq2};
    use ark_ff::{BigInteger256, BigInteger384};
    let mut g = Sm(s.u64());
    loop {
        let v = g.next();
        let fr_ok = (v & (u64::MAX >> 1)) < 0x73eda753299d7d48;
        let fq_ok = (v & (u64::MAX >> 3)) < 0x1a0111ea397fe69a;
        if !fr_ok || !fq_ok {
            continue;
        }
        let _ = (BigInteger256::default(), BigInteger384::default());
        let mut r = ConstRng(v);
        let x = Fq::rand(&mut r);
        let y = Fq2::rand(&mut r);
        if G1Affine::get_point_from_x(x, false).is_some() && G2Affine::get_point_from_x(y, false).is_some() {
            return r;
        }
    }
}

fn wide(s: &mut Src, o: Opts) -> Circ<Fr> {
    let o = o.widen(s, 12, 70);
    gen_circ(s, &o)
}
/// keys and proofs equal the definition given the trapdoor
fn trapdoor(s: &mut Src) -> R {
    let c: Circ<Fr> = wide(s, Opts { min_con: 0, max_con: 9, max_aux: 8, ..Opts::default() });
    let mut cr = const_rng(s);
    let nz = |s: &mut Src| -> Fr { s.nonzero() };
    let (alpha, beta, gamma, delta) = (nz(s), nz(s), nz(s), nz(s));
    let p = match generate_parameters::<E, _, _>(c.blank(), alpha, beta, gamma, delta, &mut cr) {
        Ok(p) => p,
        Err(e) => return fail("setup-error", format!("{:?}", e)),
    };
    let mut r2 = cr.clone();
    let t = Fr::rand(&mut r2);
    let g1 = G1Projective::rand(&mut r2);
    let g2 = G2Projective::rand(&mut r2);
    // QAP by naive Lagrange interpolation over the constraint rows and the input rows
    let (npub, naux, ncon) = (c.pubs.len(), c.auxs.len(), c.cons.len());
    let ninp = npub + 1;
    let nrows = ncon + ninp;
    let m = nrows.next_power_of_two();
    let w = Fr::get_root_of_unity(m).unwrap();
    let zt = t.pow([m as u64]) - Fr::one();
    ensure!(!zt.is_zero(), "t-in-domain", "evaluation point inside the domain");
    let minv = Fr::from(m as u64).inverse().unwrap();
    let lag: Vec<Fr> = (0..m).map(|k| {
        let wk = w.pow([k as u64]);
        wk * zt * minv * (t - wk).inverse().unwrap()
    }).collect();
    let nv = ninp + naux;
    let (mut u, mut v, mut ww) = (vec![Fr::zero(); nv], vec![Fr::zero(); nv], vec![Fr::zero(); nv]);
    let ix = |x: V| match x {
        V::One => 0,
        V::Pub(i) => 1 + i,
        V::Aux(i) => ninp + i,
    };
    for (k, (a, b, d)) in c.cons.iter().enumerate() {
        for (x, co) in a {
            u[ix(*x)] += lag[k] * co;
        }
        for (x, co) in b {
            v[ix(*x)] += lag[k] * co;
        }
        for (x, co) in d {
            ww[ix(*x)] += lag[k] * co;
        }
    }
    for i in 0..ninp {
        u[i] += lag[ncon + i];
    }
    let e1 = |x: Fr| g1.mul(x.into_repr()).into_affine();
    let e2 = |x: Fr| g2.mul(x.into_repr()).into_affine();
    let gi = gamma.inverse().unwrap();
    let di = delta.inverse().unwrap();
    ensure!(p.vk.alpha_g1 == e1(alpha), "vk-alpha", "alpha_g1");
    ensure!(p.vk.beta_g2 == e2(beta), "vk-beta", "beta_g2");
    ensure!(p.vk.gamma_g2 == e2(gamma), "vk-gamma", "gamma_g2");
    ensure!(p.vk.delta_g2 == e2(delta), "vk-delta", "delta_g2");
    ensure!(p.beta_g1 == e1(beta) && p.delta_g1 == e1(delta), "pk-g1", "beta_g1/delta_g1");
    ensure!(p.vk.gamma_abc_g1.len() == ninp, "ic-len", "{} inputs, {} elements", ninp, p.vk.gamma_abc_g1.len());
    for i in 0..ninp {
        ensure!(p.vk.gamma_abc_g1[i] == e1((beta * u[i] + alpha * v[i] + ww[i]) * gi), "ic", "gamma_abc[{}]", i);
    }
    ensure!(p.a_query.len() == nv && p.b_g1_query.len() == nv && p.b_g2_query.len() == nv && p.l_query.len() == naux, "query-len", "query lengths");
    for i in 0..nv {
        ensure!(p.a_query[i] == e1(u[i]), "a-query", "a_query[{}]", i);
        ensure!(p.b_g1_query[i] == e1(v[i]), "b1-query", "b_g1_query[{}]", i);
        ensure!(p.b_g2_query[i] == e2(v[i]), "b2-query", "b_g2_query[{}]", i);
    }
    for i in 0..naux {
        let j = ninp + i;
        ensure!(p.l_query[i] == e1((beta * u[j] + alpha * v[j] + ww[j]) * di), "l-query", "l_query[{}]", i);
    }
    ensure!(p.h_query.len() == m - 1, "h-len", "h_query has {} elements for domain {}", p.h_query.len(), m);
    let mut tp = Fr::one();
    for i in 0..m - 1 {
        ensure!(p.h_query[i] == e1(zt * di * tp), "h-query", "h_query[{}]", i);
        tp *= t;
    }
    // proof
    let (r, q): (Fr, Fr) = (s.field(), s.field());
    let proof = match create_proof(&p, c.clone(), r, q) {
        Ok(p) => p,
        Err(e) => return fail("prove-error", format!("{:?}", e)),
    };
    let mut z = vec![Fr::one()];
    z.extend(c.pubs.iter().copied());
    z.extend(c.auxs.iter().copied());
    let dot = |a: &[Fr]| a.iter().zip(&z).map(|(x, y)| *x * y).fold(Fr::zero(), |a, b| a + b);
    let (at, bt, ct) = (dot(&u), dot(&v), dot(&ww));
    let h = (at * bt - ct) * zt.inverse().unwrap();
    let sa = alpha + at + r * delta;
    let sb = beta + bt + q * delta;
    let mut laux = Fr::zero();
    for i in 0..naux {
        let j = ninp + i;
        laux += (beta * u[j] + alpha * v[j] + ww[j]) * di * z[j];
    }
    let sc = laux + h * zt * di + sa * q + sb * r - r * q * delta;
    ensure!(proof.a == e1(sa), "proof-a", "proof element A differs from its definition");
    ensure!(proof.b == e2(sb), "proof-b", "proof element B differs from its definition");
    ensure!(proof.c == e1(sc), "proof-c", "proof element C differs from its definition");
    ensure!(accepts(&p.vk, &proof, &c.pubs), "rejected", "definition-conforming proof rejected");
    Ok(())
}

fn wrong_public(s: &mut Src) -> R {
    let c: Circ<Fr> = wide(s, Opts { min_pub: 1, ..Opts::default() });
    let mut rng = s.rng();
    let p = params(&c, &mut rng)?;
    let proof = prove(&p, &c, &mut rng)?;
    ensure!(accepts(&p.vk, &proof, &c.pubs), "rejected", "honest proof rejected");
    for _ in 0..6 {
        let mut x = c.pubs.clone();
        match s.below(6) {
            0 => {
                let i = s.below(x.len());
                x[i] += Fr::one();
            }
            1 => {
                let i = s.below(x.len());
                x[i] = -x[i];
            }
            2 => {
                let i = s.below(x.len());
                x[i] = s.field();
            }
            3 => {
                let i = s.below(x.len());
                let j = s.below(x.len());
                x.swap(i, j);
            }
            4 => {
                s.label("short");
                x.pop();
            }
            _ => {
                s.label("long");
                x.push(s.field());
            }
        }
        if x == c.pubs {
            continue;
        }
        ensure!(!accepts(&p.vk, &proof, &x), "wrong-public-accepted", "accepted for {:?} instead of {:?}", x.len(), c.pubs.len());
    }
    Ok(())
}

fn violating(s: &mut Src) -> R {
    let c: Circ<Fr> = wide(s, Opts::default());
    let b = match gen_violation(s, &c) {
        Some(b) => b,
        None => return Ok(()),
    };
    let mut rng = s.rng();
    let p = params(&b, &mut rng)?;
    // the prover runs the key's circuit on the violating assignment
    if let Ok(Ok(proof)) = quiet(|| create_random_proof(&p, b.clone(), &mut rng)) {
        ensure!(!accepts(&p.vk, &proof, &b.pubs), "violating-accepted", "a proof from a violating assignment is accepted");
    }
    // ... and the satisfied sibling circuit, still under the key of the other one
    if b.auxs == c.auxs {
        s.label("sibling-circuit");
        if let Ok(Ok(proof)) = quiet(|| create_proof_no_zk(&p, c.clone())) {
            ensure!(!accepts(&p.vk, &proof, &b.pubs), "other-circuit-accepted", "a proof computed for another circuit is accepted");
        }
    }
    Ok(())
}

fn mutated(s: &mut Src) -> R {
    let c: Circ<Fr> = wide(s, Opts::default());
    let mut rng = s.rng();
    let p = params(&c, &mut rng)?;
    let proof = prove(&p, &c, &mut rng)?;
    let proof2 = prove(&p, &c, &mut rng)?;
    for _ in 0..4 {
        let mut q = proof.clone();
        let mut vk = p.vk.clone();
        let what = s.below(10);
        let k: Fr = s.nonzero();
        match what {
            0 => q.a = (q.a.into_projective() + G1Projective::prime_subgroup_generator().mul(k.into_repr())).into(),
            1 => q.b = (q.b.into_projective() + G2Projective::prime_subgroup_generator().mul(k.into_repr())).into(),
            2 => q.c = (q.c.into_projective() + G1Projective::prime_subgroup_generator().mul(k.into_repr())).into(),
            3 => match s.below(3) {
                0 => q.a = -q.a,
                1 => q.b = -q.b,
                _ => q.c = -q.c,
            },
            4 => match s.below(3) {
                0 => q.a = G1Affine::zero(),
                1 => q.b = G2Affine::zero(),
                _ => q.c = G1Affine::zero(),
            },
            5 => std::mem::swap(&mut q.a, &mut q.c),
            6 => match s.below(3) {
                0 => q.a = proof2.a,
                1 => q.b = proof2.b,
                _ => q.c = proof2.c,
            },
            7 => {
                let i = s.below(vk.gamma_abc_g1.len());
                // only entries that enter the statement
                if i > 0 && c.pubs[i - 1].is_zero() {
                    continue;
                }
                vk.gamma_abc_g1[i] = (vk.gamma_abc_g1[i].into_projective() + G1Projective::prime_subgroup_generator()).into();
            }
            8 => match s.below(4) {
                0 => vk.alpha_g1 = (vk.alpha_g1.into_projective() + G1Projective::prime_subgroup_generator()).into(),
                1 => vk.beta_g2 = -vk.beta_g2,
                2 => vk.delta_g2 = (vk.delta_g2.into_projective().double()).into(),
                _ => vk.gamma_g2 = (vk.gamma_g2.into_projective().double()).into(),
            },
            _ => {
                // keys of the same circuit from another ceremony
                let p2 = params(&c, &mut rng)?;
                vk = p2.vk;
            }
        }
        s.label(format!("mutation {}", what));
        let same = q.a == proof.a && q.b == proof.b && q.c == proof.c;
        if same && vk == p.vk {
            continue;
        }
        // doubling gamma or delta is invisible when what they pair with is the identity
        if what == 8 && (proof.c.is_zero()) {
            continue;
        }
        let mut ic = vk.gamma_abc_g1[0].into_projective();
        for (x, g) in c.pubs.iter().zip(&vk.gamma_abc_g1[1..]) {
            ic += g.mul(x.into_repr());
        }
        if what == 8 && ic.is_zero() {
            continue;
        }
        ensure!(!accepts(&vk, &q, &c.pubs), "altered-accepted", "an altered proof or key is accepted (mutation {})", what);
    }
    Ok(())
}

fn main() {
    vharness::main(
        "P03",
        "A case is a random rank-1 system with (trapdoor) every key and proof element recomputed from the trapdoor by naive interpolation, or a false statement: changed publics, violating assignment, altered proof/key; non-trivial = the system has at least one non-empty constraint.",
        vec![
            sub("trapdoor", 500, 12000, trapdoor),
            sub("wrong-public", 400, 8000, wrong_public),
            sub("violating", 900, 20000, violating),
            sub("mutated", 400, 8000, mutated),
        ],
    )
}
