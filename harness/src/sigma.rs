//! The commitment sub-proofs shared by Libra and Hyrax (two copies of the same interface).
#[macro_export]
macro_rules! sigma_tests {
    ($k:ident) => {
        pub mod sigma {
            use ark_ff::{One, UniformRand, Zero};
            use merlin::Transcript;
            use vharness::tree::*;
            use vharness::*;
            use zkp_curve::{AffineCurve, Curve, ProjectiveCurve};
            use $k::commitment::*;
            use $k::evaluate::{packing_poly_commit, poly_commit_vec};
            use $k::params::Parameters;
            fn t(x: u64) -> Transcript {
                let mut t = Transcript::new(b"sub-proof");
                t.append_u64(b"context", x);
                t
            }
            fn no(sig: &str, r: Result<bool, String>) -> R {
                ensure!(r != Ok(true), sig, "a false claim or altered sub-proof is accepted");
                Ok(())
            }
            fn yes(sig: &str, r: bool) -> R {
                ensure!(r, sig, "an honest sub-proof is refused");
                Ok(())
            }
            fn point<G: Curve>(s: &mut Src, p: G::Affine) -> G::Affine {
                let mut r = s.rng();
                match s.below(4) {
                    0 => G::Affine::zero(),
                    1 => -p,
                    2 => (p.into_projective() + &G::Projective::rand(&mut r)).into_affine(),
                    _ => G::Projective::rand(&mut r).into_affine(),
                }
            }
            pub fn scalars<G: Curve>(s: &mut Src) -> R {
                let mut r = s.rng();
                let p = Parameters::<G>::new(&mut r, 1).sc_params.gen_1;
                let cx = s.u64();
                let (x, y): (G::Fr, G::Fr) = (s.field(), s.field());
                let (bx, by, bz): (G::Fr, G::Fr, G::Fr) = (s.field(), s.field(), s.field());
                let d: G::Fr = s.nonzero();
                s.nontrivial();
                // knowledge of an opening
                let (k, c) = KnowledgeProof::<G>::prover(&p, x, bx, &mut r, &mut t(cx));
                yes("knowledge-rejected", k.verify(&p, c, &mut t(cx)))?;
                ensure!(c == poly_commit_vec::<G>(&p.generators, &vec![x], &p.h, bx), "commitment", "not the commitment to the claim");
                no("knowledge-accepted", quiet(|| k.verify(&p, (c.into_projective() + &p.h.mul(d)).into_affine(), &mut t(cx))))?;
                // (the identity has an opening in every context)
                if !(x.is_zero() && bx.is_zero()) {
                    no("knowledge-accepted", quiet(|| k.verify(&p, c, &mut t(cx ^ 1))))?;
                }
                no("knowledge-accepted", quiet(|| KnowledgeProof::<G> { t_comm: k.t_comm, z1: k.z1 + &d, z2: k.z2 }.verify(&p, c, &mut t(cx))))?;
                no("knowledge-accepted", quiet(|| KnowledgeProof::<G> { t_comm: k.t_comm, z1: k.z1, z2: k.z2 + &d }.verify(&p, c, &mut t(cx))))?;
                let q = point::<G>(s, k.t_comm);
                if q != k.t_comm {
                    no("knowledge-accepted", quiet(|| KnowledgeProof::<G> { t_comm: q, z1: k.z1, z2: k.z2 }.verify(&p, c, &mut t(cx))))?;
                }
                // equality of two committed values
                let e = EqProof::<G>::prover(&p, x, bx, x, by, &mut r, &mut t(cx));
                let com = |v: G::Fr, b: G::Fr| poly_commit_vec::<G>(&p.generators, &vec![v], &p.h, b);
                let (c1, c2) = (com(x, bx), com(x, by));
                yes("eq-rejected", e.verify(&p, c1, c2, &mut t(cx)))?;
                no("eq-accepted", quiet(|| e.verify(&p, c1, com(x + &d, by), &mut t(cx))))?;
                if bx != by {
                    no("eq-accepted", quiet(|| e.verify(&p, c1, c2, &mut t(cx ^ 2))))?;
                }
                no("eq-accepted", quiet(|| EqProof::<G> { alpha: e.alpha, z: e.z + &d }.verify(&p, c1, c2, &mut t(cx))))?;
                let q = point::<G>(s, e.alpha);
                if q != e.alpha {
                    no("eq-accepted", quiet(|| EqProof::<G> { alpha: q, z: e.z }.verify(&p, c1, c2, &mut t(cx))))?;
                }
                let f = EqProof::<G>::prover(&p, x, bx, x + &d, by, &mut r, &mut t(cx));
                no("eq-accepted", quiet(|| f.verify(&p, c1, com(x + &d, by), &mut t(cx))))?;
                // product of two committed values
                let (pp, a, b, c) = ProductProof::<G>::prover(&p, x, bx, y, by, x * &y, bz, &mut r, &mut t(cx));
                yes("product-rejected", pp.verify(&p, a, b, c, &mut t(cx)))?;
                ensure!(a == com(x, bx) && b == com(y, by) && c == com(x * &y, bz), "commitment", "not the commitments to the claims");
                let o = ops::<G::Affine>();
                let tree = Ty::p("{a:g,b:g,d:g,z:[f]}").parse(&ser(&pp), &o)?;
                for _ in 0..4 {
                    if let Some((m, _)) = tree.mutate(s, &o) {
                        if let Some(q) = de::<ProductProof<G>>(&m.ser()) {
                            no("product-accepted", quiet(|| q.verify(&p, a, b, c, &mut t(cx))))?;
                        }
                    }
                }
                no("product-accepted", quiet(|| pp.verify(&p, a, b, com(x * &y + &d, bz), &mut t(cx))))?;
                let (f, a, b, c) = ProductProof::<G>::prover(&p, x, bx, y, by, x * &y + &d, bz, &mut r, &mut t(cx));
                no("product-accepted", quiet(|| f.verify(&p, a, b, c, &mut t(cx))))?;
                // a product proof may not be used for other factors
                if !x.is_zero() {
                    no("product-accepted", quiet(|| f.verify(&p, a, com(y + &d, by), c, &mut t(cx))))?;
                }
                Ok(())
            }
            pub fn dot<G: Curve>(s: &mut Src) -> R {
                let mut r = s.rng();
                let lg = s.below(5);
                let pc = Parameters::<G>::new(&mut r, 2 * lg + s.below(2)).pc_params;
                let cx = s.u64();
                // the plain form takes any length, the logarithmic one powers of two
                let n = if s.bool() { 1 << lg } else { s.range(1, 1 << lg) };
                let x: Vec<G::Fr> = (0..n).map(|_| s.field()).collect();
                let a: Vec<G::Fr> = (0..n).map(|_| s.field()).collect();
                let (bx, by): (G::Fr, G::Fr) = (s.field(), s.field());
                let d: G::Fr = s.nonzero();
                let y: G::Fr = inner_product::<G>(&x, &a);
                ensure!(y == x.iter().zip(&a).map(|(p, q)| *p * q).fold(G::Fr::zero(), |m, v| m + &v), "inner-product", "wrong inner product");
                if n > 1 {
                    s.nontrivial();
                }
                s.label(format!("length {}", n));
                let comx = poly_commit_vec::<G>(&pc.gen_n.generators, &x, &pc.gen_n.h, bx);
                let comy = |v: G::Fr| poly_commit_vec::<G>(&pc.gen_1.generators, &vec![v], &pc.gen_1.h, by);
                let (p, c1, c2) = DotProductProof::<G>::prover(&pc, &x, bx, &a, y, by, &mut r, &mut t(cx));
                ensure!(c1 == comx && c2 == comy(y), "commitment", "not the commitments to the claims");
                yes("dot-rejected", p.verify(&pc, c1, c2, &a, &mut t(cx)))?;
                let with = |k: usize, s: &mut Src| {
                    let mut z = p.z_vec.clone();
                    let (mut de, mut be, mut zd, mut zb) = (p.delta, p.beta, p.z_delta, p.z_beta);
                    match k {
                        0 => {
                            let i = s.below(n);
                            z[i] += &d
                        }
                        1 => zd += &d,
                        2 => zb += &d,
                        3 => de = point::<G>(s, de),
                        4 => be = point::<G>(s, be),
                        5 => {
                            z.pop();
                        }
                        _ => z.push(d),
                    }
                    DotProductProof::<G> { z_vec: z, delta: de, beta: be, z_delta: zd, z_beta: zb }
                };
                for k in 0..7 {
                    let q = with(k, s);
                    if (k == 3 && q.delta == p.delta) || (k == 4 && q.beta == p.beta) {
                        continue;
                    }
                    no("dot-accepted", quiet(|| q.verify(&pc, c1, c2, &a, &mut t(cx))))?;
                }
                no("dot-accepted", quiet(|| p.verify(&pc, c1, comy(y + &d), &a, &mut t(cx))))?;
                let mut a2 = a.clone();
                let i = s.below(n);
                a2[i] += &d;
                if !x[i].is_zero() {
                    no("dot-accepted", quiet(|| p.verify(&pc, c1, c2, &a2, &mut t(cx))))?;
                }
                let (f, f1, f2) = DotProductProof::<G>::prover(&pc, &x, bx, &a, y + &d, by, &mut r, &mut t(cx));
                no("dot-accepted", quiet(|| f.verify(&pc, f1, f2, &a, &mut t(cx))))?;
                // a proof about a longer vector does not prove the claim for its prefix
                if n > 1 && !(x[n - 1] * &a[n - 1]).is_zero() {
                    let pre = a[..n - 1].to_vec();
                    no("dot-accepted", quiet(|| p.verify(&pc, c1, c2, &pre, &mut t(cx))))?;
                }
                // (the logarithmic form is only used for, and only sound for, a public vector that is not zero)
                if !n.is_power_of_two() || a.iter().all(|v| v.is_zero()) {
                    return Ok(());
                }
                let (p, c1, c2) = LogDotProductProof::<G>::prover(&pc, &x, bx, &a, y, by, &mut r, &mut t(cx));
                ensure!(c1 == comx && c2 == comy(y), "commitment", "not the commitments to the claims");
                yes("log-dot-rejected", p.verify(&pc, c1, c2, &a, &mut t(cx)))?;
                let o = ops::<G::Affine>();
                let tree = Ty::p("{l:[g],r:[g],delta:g,beta:g,z1:f,z2:f}").parse(&ser(&p), &o)?;
                for _ in 0..6 {
                    if let Some((m, w)) = tree.mutate(s, &o) {
                        if let Some(q) = de::<LogDotProductProof<G>>(&m.ser()) {
                            // beta and a_hat only matter together
                            let _ = w;
                            no("log-dot-accepted", quiet(|| q.verify(&pc, c1, c2, &a, &mut t(cx))))?;
                        }
                    }
                }
                no("log-dot-accepted", quiet(|| p.verify(&pc, c1, comy(y + &d), &a, &mut t(cx))))?;
                if !x[i].is_zero() {
                    no("log-dot-accepted", quiet(|| p.verify(&pc, c1, c2, &a2, &mut t(cx))))?;
                }
                let (f, f1, f2) = LogDotProductProof::<G>::prover(&pc, &x, bx, &a, y + &d, by, &mut r, &mut t(cx));
                no("log-dot-accepted", quiet(|| f.verify(&pc, f1, f2, &a, &mut t(cx))))?;
                Ok(())
            }
            /// opening a committed multilinear table at a point
            pub fn table<G: Curve>(s: &mut Src) -> R {
                let mut r = s.rng();
                let lg = s.below(6);
                let pc = Parameters::<G>::new(&mut r, lg + s.below(2)).pc_params;
                let cx = s.u64();
                let v: Vec<G::Fr> = (0..1usize << lg).map(|_| s.field()).collect();
                let pt: Vec<G::Fr> = (0..lg).map(|_| s.field()).collect();
                let d: G::Fr = s.nonzero();
                if lg > 1 {
                    s.nontrivial();
                }
                s.label(format!("{} variables", lg));
                // first variable = most significant index bit
                let mut m = v.clone();
                for x in &pt {
                    let h = m.len() / 2;
                    m = (0..h).map(|i| m[i] * &(G::Fr::one() - x) + &(m[i + h] * x)).collect();
                }
                let y = m[0];
                let blind = s.bool();
                let (comms, blinds) = packing_poly_commit::<G, _>(&pc.gen_n.generators, &v, &pc.gen_n.h, &mut r, blind);
                let by: G::Fr = s.field();
                let (p, cy) = LogDotProductProof::<G>::reduce_prover(&pc, &v, &blinds, &pt, by, y, &mut r, &mut t(cx));
                ensure!(cy == poly_commit_vec::<G>(&pc.gen_1.generators, &vec![y], &pc.gen_1.h, by), "commitment", "not the commitment to the value");
                yes("opening-rejected", p.reduce_verifier(&pc, &pt, &comms, cy, &mut t(cx)))?;
                let bad = poly_commit_vec::<G>(&pc.gen_1.generators, &vec![y + &d], &pc.gen_1.h, by);
                no("opening-accepted", quiet(|| p.reduce_verifier(&pc, &pt, &comms, bad, &mut t(cx))))?;
                let (f, cf) = LogDotProductProof::<G>::reduce_prover(&pc, &v, &blinds, &pt, by, y + &d, &mut r, &mut t(cx));
                no("opening-accepted", quiet(|| f.reduce_verifier(&pc, &pt, &comms, cf, &mut t(cx))))?;
                if lg > 0 {
                    let i = s.below(lg);
                    let mut q = pt.clone();
                    q[i] += &d;
                    let mut m = v.clone();
                    for x in &q {
                        let h = m.len() / 2;
                        m = (0..h).map(|i| m[i] * &(G::Fr::one() - x) + &(m[i + h] * x)).collect();
                    }
                    if m[0] != y {
                        no("opening-accepted", quiet(|| p.reduce_verifier(&pc, &q, &comms, cy, &mut t(cx))))?;
                    }
                    q.pop();
                    no("opening-accepted", quiet(|| p.reduce_verifier(&pc, &q, &comms, cy, &mut t(cx))))?;
                }
                let mut cs = comms.clone();
                let i = s.below(cs.len());
                cs[i] = point::<G>(s, cs[i]);
                let eqs = {
                    // weight of row i
                    let k = cs.len().trailing_zeros() as usize;
                    (0..k).fold(G::Fr::one(), |m, j| m * &(if i >> (k - 1 - j) & 1 == 1 { pt[j] } else { G::Fr::one() - &pt[j] }))
                };
                if cs[i] != comms[i] && !eqs.is_zero() {
                    no("opening-accepted", quiet(|| p.reduce_verifier(&pc, &pt, &cs, cy, &mut t(cx))))?;
                }
                cs = comms.clone();
                cs.push(comms[0]);
                no("opening-accepted", quiet(|| p.reduce_verifier(&pc, &pt, &cs, cy, &mut t(cx))))?;
                Ok(())
            }
        }
    };
}
