//! P12: Spartan NIZK soundness.
use ark_bls12_381::Bls12_381;
use ark_ff::{Field, One, PrimeField, Zero};
use vharness::circ::*;
use vharness::fs::*;
use vharness::schemes::spartan::*;
use vharness::schemes::*;
use vharness::tree::*;
use vharness::*;
use zkp_curve::Curve;
use zkp_curve25519::Curve25519;
use zkp_spartan::nizk;
use zkp_spartan::polynomial::evaluate_mle;

fn g<S: Snark>(s: &mut Src, min: usize) -> Circ<S::F> {
    let o = Opts { max_con: 8, max_aux: 8, min_pub: min, ..Opts::default() }.widen(s, 14, 40);
    gen_circ(s, &o)
}
fn pubs<S: Snark>(s: &mut Src) -> R {
    let c = g::<S>(s, 0);
    wrong_public::<S>(s, &c)
}
fn viol<S: Snark>(s: &mut Src) -> R {
    let c = g::<S>(s, 0);
    violating::<S>(s, &c)
}
fn alt<S: Snark>(s: &mut Src) -> R {
    let c = g::<S>(s, 0);
    altered::<S>(s, &c)
}
/// A prover without a witness proves the satisfied sibling circuit on the violated circuit's
/// transcript and then picks the point (rx, ry) the matrices are evaluated at.
fn chosen_point<G: Curve>(s: &mut Src) -> R {
    let c: Circ<G::Fr> = g::<Nizk<G>>(s, 0);
    let b = match gen_violation(s, &c) {
        Some(b) if b.auxs == c.auxs => b,
        _ => return Ok(()),
    };
    let mut rng = s.rng();
    let kb = setup::<Nizk<G>>(&b, &mut rng)?;
    let kc = setup::<Nizk<G>>(&c, &mut rng)?;
    let pk = nizk::ProveKey { params: kb.pk.params.clone(), r1cs: kc.pk.r1cs.clone() };
    let (proof, log) = record_quiet(|| nizk::create_random_proof(&pk, c.clone(), kb.h.0, kb.h.1, &mut rng));
    let proof = match proof {
        Some(Ok(p)) => p,
        _ => return Ok(()),
    };
    let ch = |l: &[u8]| -> G::Fr { challenges(&log).iter().rev().find(|(_, k, _)| *k == l).map(|(_, _, m)| G::Fr::from_le_bytes_mod_order(m)).unwrap_or_else(G::Fr::zero) };
    let (ra, rb, rc) = (ch(b"challenege_Az"), ch(b"challenege_Bz"), ch(b"challenege_Cz"));
    let comb = |k: &NK<G>, x: &Vec<G::Fr>, y: &Vec<G::Fr>| {
        let r = &k.pk.r1cs;
        ra * evaluate_mle::<G>(&r.a_matrix, x, y) + rb * evaluate_mle::<G>(&r.b_matrix, x, y) + rc * evaluate_mle::<G>(&r.c_matrix, x, y)
    };
    let o = ops::<G::Affine>();
    let t = Ty::p(Nizk::<G>::schema()).parse(&ser(&proof), &o)?;
    let rx: Vec<G::Fr> = de(&t.at("rx").ser()).unwrap();
    let ry: Vec<G::Fr> = de(&t.at("ry").ser()).unwrap();
    let want = comb(&kc, &rx, &ry);
    ensure!(!Nizk::<G>::accepts(&kb, &t.ser(), &b.pubs), "sibling-accepted", "a proof for another circuit is accepted");
    let (nx, ny) = (rx.len(), ry.len());
    for j in 0..nx + ny {
        let at = |v: G::Fr| {
            let (mut x, mut y) = (rx.clone(), ry.clone());
            if j < nx {
                x[j] = v
            } else {
                y[j - nx] = v
            }
            (x, y)
        };
        let (x0, y0) = at(G::Fr::zero());
        let (x1, y1) = at(G::Fr::one());
        let (v0, v1) = (comb(&kb, &x0, &y0), comb(&kb, &x1, &y1));
        let v = match (v1 - v0).inverse() {
            Some(i) => (want - v0) * i,
            None => continue,
        };
        let (x, y) = at(v);
        if comb(&kb, &x, &y) != want {
            continue;
        }
        s.label("forged point");
        let bytes = ser(&x);
        let by = ser(&y);
        let mut m = t.clone();
        *m.at_mut("rx") = Ty::p("[f]").parse(&bytes, &o)?;
        *m.at_mut("ry") = Ty::p("[f]").parse(&by, &o)?;
        ensure!(!Nizk::<G>::accepts(&kb, &m.ser(), &b.pubs), "chosen-point-accepted", "a prover that chooses the evaluation point proves a violated circuit");
    }
    Ok(())
}
fn claims<S: Snark>(s: &mut Src) -> R {
    let c = g::<S>(s, 0);
    claims_snark::<S>(s, &c)
}
fn bound<S: Snark>(s: &mut Src) -> R {
    let c = g::<S>(s, 0);
    bound_snark::<S>(s, &c, 16, &|_, _| false)
}
type B = Bls12_381;
type C = Curve25519;
fn main() {
    vharness::main(
        "P12",
        "A case is a random rank-1 system with a false claim derived from it (changed publics, violated constraint, sibling circuit, altered proof, chosen evaluation point); non-trivial = the system has a non-empty constraint.",
        vec![
            sub("wrong-public-bls", 100, 2500, pubs::<Nizk<B>>),
            sub("wrong-public-25519", 400, 8000, pubs::<Nizk<C>>),
            sub("violating-bls", 100, 2500, viol::<Nizk<B>>),
            sub("violating-25519", 600, 12000, viol::<Nizk<C>>),
            sub("altered-bls", 120, 3000, alt::<Nizk<B>>),
            sub("altered-25519", 800, 20000, alt::<Nizk<C>>),
            sub("chosen-point-bls", 50, 1500, chosen_point::<B>),
            sub("chosen-point-25519", 250, 6000, chosen_point::<C>),
            sub("claims-bls", 30, 800, claims::<Nizk<B>>),
            sub("claims-25519", 150, 4000, claims::<Nizk<C>>),
            sub("bound", 150, 8000, bound::<Nizk<vharness::clear::Clear>>),
            sub("transcript", 40, 1000, |s| if s.below(4) == 0 { vharness::transcripts::nizk::<B>(s) } else { vharness::transcripts::nizk::<C>(s) }),
            sub("bound-25519", 60, 2000, bound::<Nizk<C>>),
        ],
    )
}
