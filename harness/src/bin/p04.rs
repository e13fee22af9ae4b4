//! P04: Bulletproofs completeness.
use ark_bls12_381::Bls12_381;
use vharness::circ::*;
use vharness::*;
use zkp_bulletproofs::*;
use zkp_curve::Curve;
use zkp_curve25519::Curve25519;

fn go<G: Curve>(s: &mut Src, o: &Opts) -> R {
    let c: Circ<G::Fr> = gen_circ(s, o);
    let mut rng = s.rng();
    let (gens, r1cs, proof) = match create_random_proof::<G, _, _>(c.clone(), &mut rng) {
        Ok(x) => x,
        Err(e) => return fail("prove-error", format!("{:?}", e)),
    };
    match verify_proof(&gens, &proof, &r1cs, &c.pubs) {
        Ok(true) => Ok(()),
        x => fail("rejected", format!("honest proof not accepted: {:?}", x)),
    }
}
fn bls(s: &mut Src) -> R {
    go::<Bls12_381>(s, &Opts::default())
}
fn c25519(s: &mut Src) -> R {
    go::<Curve25519>(s, &Opts::default())
}
fn boundary(s: &mut Src) -> R {
    let t = (1usize << s.range(1, 4)) + s.below(3) - 1;
    let n = if s.bool() { t.max(1) } else { s.range(1, t.max(1)) };
    let a = if n == t { s.below(t + 1) } else { t };
    s.label("around power of two");
    go::<Bls12_381>(s, &Opts { min_con: n, max_con: n, min_aux: a, max_aux: a, ..Opts::default() })
}
fn large(s: &mut Src) -> R {
    let (p, a, k) = *s.pick(&[(20, 10, 40), (1, 60, 6), (3, 3, 60), (40, 2, 8)]);
    let max_lc = *s.pick(&[25, 100]);
    go::<Bls12_381>(s, &Opts { max_pub: p, max_aux: a, max_con: k, min_con: k / 2, min_pub: p / 2, min_aux: a / 2, max_lc, ..Opts::default() })
}
fn main() {
    vharness::main(
        "P04",
        "A case is a random satisfied rank-1 system proved and verified with Bulletproofs over one of two curves; non-trivial = it has at least one non-empty constraint.",
        vec![sub("bls12_381", 900, 20000, bls), sub("curve25519", 1500, 30000, c25519), sub("boundary", 200, 4000, boundary), sub("large", 30, 600, large)],
    )
}
