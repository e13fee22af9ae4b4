//! P02: Groth16 completeness.
use ark_bls12_381::{Bls12_381, Fr};
use vharness::circ::*;
use vharness::*;
use zkp_groth16::generator::*;
use zkp_groth16::prover::*;
use zkp_groth16::*;

fn prove_verify(s: &mut Src, c: &Circ<Fr>) -> R {
    let mut rng = s.rng();
    let params = match generate_random_parameters::<Bls12_381, _, _>(c.blank(), &mut rng) {
        Ok(p) => p,
        Err(e) => return fail("setup-error", format!("{:?}", e)),
    };
    let pvk = prepare_verifying_key(&params.vk);
    let mode = s.below(4);
    let proof = match mode {
        0 => create_proof_no_zk(&params, c.clone()),
        1 => {
            let (a, b) = (s.field(), s.field());
            s.label("explicit-blinding");
            create_proof(&params, c.clone(), a, b)
        }
        _ => create_random_proof(&params, c.clone(), &mut rng),
    };
    let proof = match proof {
        Ok(p) => p,
        Err(e) => return fail("prove-error", format!("{:?}", e)),
    };
    match verify_proof(&pvk, &proof, &c.pubs) {
        Ok(true) => Ok(()),
        x => fail("rejected", format!("honest proof not accepted: {:?}", x)),
    }
}
fn small(s: &mut Src) -> R {
    let c: Circ<Fr> = gen_circ(s, &Opts { min_con: 0, ..Opts::default() });
    prove_verify(s, &c)
}
fn large(s: &mut Src) -> R {
    let (p, a, k) = *s.pick(&[(40, 20, 60), (2, 150, 10), (3, 10, 130), (100, 2, 8), (0, 40, 70)]);
    let max_lc = *s.pick(&[30, 120]);
    let c: Circ<Fr> = gen_circ(s, &Opts { max_pub: p, max_aux: a, max_con: k, min_con: k / 2, min_pub: p / 2, min_aux: a / 2, max_lc, ..Opts::default() });
    prove_verify(s, &c)
}
/// sizes around powers of two: constraints + inputs
fn boundary(s: &mut Src) -> R {
    let t = (1usize << s.range(1, 5)) + s.below(3) - 1;
    let npub = s.below(t.min(6));
    let ncon = t - npub.min(t);
    s.label("around power of two");
    let c: Circ<Fr> = gen_circ(s, &Opts { min_con: ncon, max_con: ncon, min_pub: npub, max_pub: npub, max_aux: 5, ..Opts::default() });
    prove_verify(s, &c)
}
fn main() {
    vharness::main(
        "P02",
        "A case is a random satisfied rank-1 system (keys from the blank circuit, proof from the assignment, verification); non-trivial = it has at least one non-empty constraint.",
        vec![sub("small", 1600, 40000, small), sub("boundary", 600, 10000, boundary), sub("large", 200, 4000, large)],
    )
}
