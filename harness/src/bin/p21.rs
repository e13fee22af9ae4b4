//! P21: proofs are freshly blinded. Each statement is proved many times under the same
//! challenges and other randomness; nothing the verifier sees of the witness may stay.
use ark_bls12_381::{Bls12_381, Fr, G1Affine, G2Affine};
use ark_ec::{AffineCurve, PairingEngine, ProjectiveCurve};
use ark_ff::{Field, One, PrimeField, Zero};
use ark_serialize::CanonicalDeserialize;
use vharness::all::*;
use vharness::clear::Clear;
use vharness::tree::*;
use vharness::*;
use zkp_curve::Curve;
use zkp_curve25519::Curve25519;

type B = Bls12_381;
type C = Curve25519;

/// what of a proof is a function of the statement and the challenges alone
fn public(name: &str, p: &str, sizes: &Sizes) -> bool {
    let index = |pre: &str| p.strip_prefix(pre).and_then(|r| r.split(']').next()).and_then(|n| n.parse::<usize>().ok());
    match name {
        // the sparse matrices' polynomials, the second sum-check's, and their opening
        "marlin" => {
            p.starts_with(".comms[1][0]")
                || p.starts_with(".comms[2]")
                || index(".evals[").map_or(false, |i| i < 12 || i == 13 || i == 15 || i == 17)
                // points are opened in the order of their values; the hiding one reveals a scalar too
                || index(".opens[").map_or(false, |i| !sizes.hiding.contains(&i))
        }
        // multipliers past the circuit's; responses of the inner-product proof follow from l_x and r_x
        "bulletproofs" => [".l_x[", ".r_x["].iter().any(|q| index(q).map_or(false, |i| i >= sizes.n)) || p == ".IPP.a" || p == ".IPP.b",
        "spartan-nizk" => p.starts_with(".rx[") || p.starts_with(".ry["),
        // all but the satisfiability proof is about the matrices
        "spartan-snark" => !p.starts_with(".sat") || p.starts_with(".sat.rx") || p.starts_with(".sat.ry"),
        // the claim about the outputs is committed to in the open
        "hyrax" => p == ".proofs[0].a0",
        _ => false,
    }
}
struct Sizes {
    cons: usize,
    /// multipliers of a Bulletproofs statement
    n: usize,
    hiding: Vec<usize>,
}
fn rank<F: PrimeField>(mut rows: Vec<Vec<F>>) -> (usize, Vec<usize>) {
    let (mut rank, mut dep) = (0, vec![]);
    let w = rows.first().map_or(0, |r| r.len());
    for c in 0..w {
        match (rank..rows.len()).find(|&r| !rows[r][c].is_zero()) {
            None => dep.push(c),
            Some(p) => {
                rows.swap(rank, p);
                let inv = rows[rank][c].inverse().unwrap();
                for r in rank + 1..rows.len() {
                    if !rows[r][c].is_zero() {
                        let f = rows[r][c] * inv;
                        for q in c..w {
                            let x = rows[rank][q];
                            rows[r][q] -= f * x;
                        }
                    }
                }
                rank += 1;
            }
        }
    }
    (rank, dep)
}
/// With the discrete logarithms in the open, every linear relation shows. These components follow
/// from earlier ones by the verification equations (and the public ones are constant).
fn implied(name: &str, p: &str, sizes: &Sizes) -> bool {
    let index = |pre: &str| p.strip_prefix(pre).and_then(|r| r.split(']').next()).and_then(|n| n.parse::<usize>().ok());
    let sigma = |p: &str| [".comm_y0", ".eq_proof0.z", ".comm_y1", ".eq_proof1.z"].contains(&p);
    if public(name, p, sizes) {
        return true;
    }
    match name {
        // the hiding opening's scalar or its point, whichever comes last
        "marlin" => index(".opens[").map_or(false, |i| sizes.hiding.contains(&i)) && p.ends_with(".r?"),
        "bulletproofs" => index(".r_x[").map_or(false, |i| i + 1 >= sizes.n) || p == ".t_x" || p == ".P",
        "spartan-nizk" | "spartan-snark" => {
            let rounds = p.starts_with(".sat.one.pr[") || index(".sat.two.pr[").map_or(false, |i| i > 0);
            rounds && (p.ends_with(".zd") || p.ends_with(".zb"))
                || [".sat.two.pr[0].zd", ".sat.kpc.vc", ".sat.kpp.k2", ".sat.kpp.z[1]", ".sat.kpp.z[3]", ".sat.eq1z", ".sat.eq2z", ".sat.commit_ry"].contains(&p)
        }
        "libra" => sigma(p) || p.starts_with(".proofs[") && [".zd", ".zb", ".prod.z[1]", ".prod.z[3]", ".eq.z"].iter().any(|q| p.ends_with(q)),
        "hyrax" => sigma(p) || p.starts_with(".proofs[") && ([".a0", ".x", ".y", ".zc"].iter().any(|q| p.ends_with(q)) || p.contains(".z_delta_vec[")),
        _ => false,
    }
}
fn clear(s: &mut Src, mk: fn(&mut Src, &Size) -> Result<Job, Fail>) -> R {
    let z = Size { min_aux: 1 + s.below(2), ..SMALL };
    let j = mk(s, &z)?;
    let mut sizes = Sizes { cons: j.cons, n: j.n, hiding: vec![] };
    s.note(format!("{} of {} constraints", j.name, j.cons));
    let fs = s.u64();
    let t = Ty::p(j.schema);
    let mut seed = s.u64();
    let mut next = || proof(&j, &t, fs, &mut seed);
    let first = next()?;
    hiding(&j, &first, &mut sizes)?;
    let idx: Vec<usize> = (0..first.len()).filter(|&i| "fgh".contains(first[i].1)).filter(|&i| !(j.name == "spartan-snark" && public(j.name, &first[i].0, &sizes))).collect();
    let rd = |v: &Vec<Leaf>, i: usize| Fr::deserialize(&v[i].2[..]).unwrap();
    let mut rows = vec![];
    for _ in 0..idx.len() + 2 {
        let v = next()?;
        ensure!(v.len() == first.len(), "shape", "proofs of one statement differ in shape");
        rows.push(idx.iter().map(|&i| rd(&v, i) - rd(&first, i)).collect());
    }
    let (_, dep) = rank(rows);
    let dep: Vec<String> = dep.iter().map(|&c| first[idx[c]].0.clone()).collect();
    let extra: Vec<String> = dep.iter().filter(|p| !implied(j.name, p, &sizes)).cloned().collect();
    ensure!(extra.is_empty(), "follows", "{} follow from the components before", extra.join(" "));
    if dep.len() < idx.iter().filter(|&&i| implied(j.name, &first[i].0, &sizes)).count() {
        s.label("fewer relations than allowed");
    }
    if idx.len() > dep.len() {
        s.nontrivial();
    }
    Ok(())
}
fn proof(j: &Job, t: &Ty, fs: u64, seed: &mut u64) -> Result<Vec<Leaf>, Fail> {
    *seed = seed.wrapping_add(1);
    let mut rng = TapeRng::new(*seed);
    merlin::recorder::force(Some(fs));
    let p = quiet(|| (j.prove)(&mut rng));
    merlin::recorder::force(None);
    let p = p.map_err(|m| Fail { sig: "prove-panic".into(), msg: m })?.map_err(|m| Fail { sig: "prove-error".into(), msg: m })?;
    Ok(t.parse(&p, &j.ops)?.leaves())
}
/// which of Marlin's openings is blinded
fn hiding(j: &Job, p: &[Leaf], sizes: &mut Sizes) -> R {
    if j.name == "marlin" {
        sizes.hiding = (0..2).filter(|i| p.iter().any(|l| l.0.starts_with(&format!(".opens[{}].r", i)))).collect();
        ensure!(sizes.hiding.len() == 1, "hiding", "{} openings are blinded", sizes.hiding.len());
    }
    Ok(())
}
fn pt<A: AffineCurve>(b: &[u8]) -> A::Projective {
    A::deserialize(b).unwrap().into_projective()
}
/// is C = P + s*Q for fixed P, Q over the first three proofs?
fn tied<A: AffineCurve>(c: [&[u8]; 3], s: [A::ScalarField; 3]) -> bool {
    let c: Vec<A::Projective> = c.iter().map(|b| pt::<A>(b)).collect();
    (c[1] - c[0]).mul((s[2] - s[0]).into_repr()) == (c[2] - c[0]).mul((s[1] - s[0]).into_repr())
}
fn sums<A: AffineCurve>(x: [&[u8]; 2], y: [&[u8]; 2]) -> Option<&'static str> {
    let (x, y): (Vec<A::Projective>, Vec<A::Projective>) = (x.iter().map(|b| pt::<A>(b)).collect(), y.iter().map(|b| pt::<A>(b)).collect());
    let (dx, dy) = (x[1] - x[0], y[1] - y[0]);
    if dx == dy {
        Some("difference")
    } else if (dx + dy).is_zero() {
        Some("sum")
    } else if dx.double() == dy || dx == dy.double() {
        Some("combination")
    } else {
        None
    }
}
fn blinded<A: AffineCurve>(s: &mut Src, mk: fn(&mut Src, &Size) -> Result<Job, Fail>, extra: fn(&[Vec<Leaf>]) -> R) -> R
where
    A::ScalarField: PrimeField,
{
    type L<A> = <A as AffineCurve>::ScalarField;
    let z = Size { min_aux: 1 + s.below(2), ..SMALL };
    let j = mk(s, &z)?;
    let mut sizes = Sizes { cons: j.cons, n: j.n, hiding: vec![] };
    s.note(format!("{} of {} constraints", j.name, j.cons));
    let fs = s.u64();
    let t = Ty::p(j.schema);
    let mut seed = s.u64();
    let mut next = || proof(&j, &t, fs, &mut seed);
    let mut all = vec![next()?];
    hiding(&j, &all[0], &mut sizes)?;
    // what must vary
    let hid: Vec<usize> = (0..all[0].len()).filter(|&i| !public(j.name, &all[0][i].0, &sizes)).collect();
    let sc: Vec<usize> = hid.iter().copied().filter(|&i| all[0][i].1 == 'f').collect();
    for _ in 0..(sc.len() + 1).max(3) {
        all.push(next()?);
    }
    for v in &all {
        ensure!(v.len() == all[0].len(), "shape", "proofs of one statement differ in shape");
    }
    // no component is the same twice
    for &i in &hid {
        let mut seen: Vec<&[u8]> = vec![];
        for v in &all {
            ensure!(!seen.contains(&&v[i].2[..]), "repeated", "{} is the same in two proofs", v[i].0);
            seen.push(&v[i].2);
        }
    }
    // no linear combination of the scalars is the same in all
    let rd = |k: usize, i: usize| L::<A>::deserialize(&all[k][i].2[..]).unwrap();
    let rows: Vec<Vec<L<A>>> = (1..all.len()).map(|k| sc.iter().map(|&i| rd(k, i) - rd(0, i)).collect()).collect();
    let (_, dep) = rank(rows);
    ensure!(dep.is_empty(), "dependent", "{} follow from the scalars before", dep.iter().map(|&c| all[0][sc[c]].0.clone()).collect::<Vec<_>>().join(" "));
    // no sum or difference of two points, and no point is a fixed affine function of a scalar
    let pts: Vec<usize> = hid.iter().copied().filter(|&i| all[0][i].1 == 'g').collect();
    for (a, &x) in pts.iter().enumerate() {
        for &y in &pts[a + 1..] {
            if let Some(w) = sums::<A>([&all[0][x].2, &all[1][x].2], [&all[0][y].2, &all[1][y].2]) {
                return fail("points", format!("the {} of {} and {} is fixed", w, all[0][x].0, all[0][y].0));
            }
        }
    }
    for _ in 0..60 {
        if pts.is_empty() || sc.is_empty() {
            break;
        }
        let (x, y) = (*s.pick(&pts), *s.pick(&sc));
        ensure!(!tied::<A>([&all[0][x].2, &all[1][x].2, &all[2][x].2], [rd(0, y), rd(1, y), rd(2, y)]), "tied", "{} is a fixed function of {}", all[0][x].0, all[0][y].0);
    }
    extra(&all)?;
    // the proof is made of the given randomness only
    let seed = s.u64();
    let one = |j: &Job| (j.prove)(&mut TapeRng::new(seed));
    ensure!(one(&j) == one(&j), "unrepeatable", "two proofs from one randomness differ");
    if hid.len() > 2 {
        s.nontrivial();
    }
    Ok(())
}
type Leaf = (String, char, Vec<u8>);
fn none(_: &[Vec<Leaf>]) -> R {
    Ok(())
}
/// a and b must not be blinded by multiples of one factor
fn groth(all: &[Vec<Leaf>]) -> R {
    let a: Vec<_> = (0..3).map(|k| pt::<G1Affine>(&all[k][0].2)).collect();
    let b: Vec<_> = (0..3).map(|k| pt::<G2Affine>(&all[k][1].2)).collect();
    let e = |x: usize, y: usize| B::pairing(a[x] - a[0], b[y] - b[0]);
    ensure!(e(1, 2) != e(2, 1), "tied", "a and b are blinded by the same factor");
    Ok(())
}
/// The commitment sub-proofs on their own, over the transparent group: what the prover draws is
/// all there is to see, but for what the verification equations imply.
macro_rules! subproofs {
    ($name:ident, $k:ident) => {
        fn $name(s: &mut Src) -> R {
            use vharness::clear::Pt;
            use $k::commitment::*;
            use $k::params::Parameters;
            let mut r = s.rng();
            let lg = s.below(4);
            let n = 1usize << lg;
            let all = Parameters::<Clear>::new(&mut r, 2 * lg);
            let (p, pc) = (all.sc_params.gen_1, all.pc_params);
            let fs = s.u64();
            let (x, y): (Fr, Fr) = (s.field(), s.field());
            let (bx, by, bz): (Fr, Fr, Fr) = (s.field(), s.field(), s.field());
            let xs: Vec<Fr> = (0..n).map(|_| s.field()).collect();
            let pubs: Vec<Fr> = (0..n).map(|_| s.nonzero()).collect();
            let dot: Fr = xs.iter().zip(&pubs).map(|(a, b)| *a * b).fold(Fr::zero(), |m, v| m + v);
            let g = |v: &[Pt]| v.iter().map(|p| p.0).collect::<Vec<_>>();
            let kind = s.below(5);
            let mut seed = s.u64();
            // components, and how many of them the equations leave free
            let mut one = || -> (Vec<Fr>, usize) {
                seed = seed.wrapping_add(1);
                let mut r = TapeRng::new(seed);
                let mut t = merlin::Transcript::new(b"sub-proof");
                merlin::recorder::force(Some(fs));
                let out = match kind {
                    0 => {
                        let (k, _) = KnowledgeProof::<Clear>::prover(&p, x, bx, &mut r, &mut t);
                        (vec![k.t_comm.0, k.z1, k.z2], 2)
                    }
                    1 => {
                        let e = EqProof::<Clear>::prover(&p, x, bx, x, by, &mut r, &mut t);
                        (vec![e.alpha.0, e.z], 1)
                    }
                    2 => {
                        let (q, ..) = ProductProof::<Clear>::prover(&p, x, bx, y, by, x * y, bz, &mut r, &mut t);
                        ([g(&[q.comm_alpha, q.comm_beta, q.comm_delta]), q.z].concat(), 5)
                    }
                    3 => {
                        let (q, ..) = DotProductProof::<Clear>::prover(&pc, &xs, bx, &pubs, dot, by, &mut r, &mut t);
                        ([g(&[q.delta, q.beta]), vec![q.z_delta, q.z_beta], q.z_vec].concat(), n + 2)
                    }
                    _ => {
                        let (q, ..) = LogDotProductProof::<Clear>::prover(&pc, &xs, bx, &pubs, dot, by, &mut r, &mut t);
                        ([g(&q.bullet_reduce_proof.l_vec), g(&q.bullet_reduce_proof.r_vec), g(&[q.delta, q.beta]), vec![q.z1, q.z2]].concat(), 2 * lg + 3)
                    }
                };
                merlin::recorder::force(None);
                out
            };
            let (first, free) = one();
            let rows: Vec<Vec<Fr>> = (0..first.len() + 1).map(|_| one().0.iter().zip(&first).map(|(a, b)| *a - b).collect()).collect();
            s.note(format!("kind {} n={}", kind, n));
            s.label(["knowledge", "equality", "product", "dot product", "logarithmic dot product"][kind]);
            s.nontrivial();
            let (got, _) = rank(rows);
            ensure!(got >= free, "sub-proof", "{} of {} components are free, the equations leave {}", got, first.len(), free);
            Ok(())
        }
    };
}
subproofs!(libra_sub, zkp_libra);
subproofs!(hyrax_sub, zkp_hyrax);
fn main() {
    let _ = (Fr::one(), <Fr as Field>::characteristic());
    type BA = <B as Curve>::Affine;
    type CA = <C as Curve>::Affine;
    vharness::main(
        "P21",
        "A case is one statement with its witness, proved once per scalar response (and at least four times) under forced challenges and other randomness. Non-trivial: more than two components depend on the witness.",
        vec![
            sub("groth16-bls", 60, 1500, |s| blinded::<BA>(s, groth16, groth)),
            sub("marlin-bls", 16, 500, |s| blinded::<BA>(s, marlin, none)),
            sub("bulletproofs-25519", 40, 2000, |s| blinded::<CA>(s, bulletproofs::<C>, none)),
            sub("spartan-nizk-25519", 30, 2000, |s| blinded::<CA>(s, nizk::<C>, none)),
            sub("spartan-snark-25519", 8, 500, |s| blinded::<CA>(s, snark::<C>, none)),
            sub("libra-25519", 12, 2000, |s| blinded::<CA>(s, libra::<C>, none)),
            sub("hyrax-25519", 12, 2000, |s| blinded::<CA>(s, hyrax::<C>, none)),
            sub("groth16", 200, 20000, |s| clear(s, groth16_over::<Clear>)),
            sub("marlin", 100, 6000, |s| clear(s, marlin_over::<Clear>)),
            sub("bulletproofs", 150, 10000, |s| clear(s, bulletproofs::<Clear>)),
            sub("spartan-nizk", 60, 4000, |s| clear(s, nizk::<Clear>)),
            sub("spartan-snark", 8, 600, |s| clear(s, snark::<Clear>)),
            sub("libra", 60, 4000, |s| clear(s, libra::<Clear>)),
            sub("hyrax", 40, 3000, |s| clear(s, hyrax::<Clear>)),
            sub("sub-proofs-libra", 400, 20000, libra_sub),
            sub("sub-proofs-hyrax", 400, 20000, hyrax_sub),
        ],
    )
}
