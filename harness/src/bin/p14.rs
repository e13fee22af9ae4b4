//! P14: Libra completeness and faithful evaluation.
use ark_bls12_381::Bls12_381;
use vharness::gkr::*;
use vharness::*;
use zkp_curve::Curve;
use zkp_curve25519::Curve25519;
use zkp_libra::circuit::Circuit;
use zkp_libra::libra_linear_gkr::LinearGKRProof;
use zkp_libra::libra_zk_linear_gkr::ZKLinearGKRProof;
use zkp_libra::params::Parameters;

fn shape(s: &mut Src) -> Raw {
    let (d, w) = if s.thorough { (6, 24) } else { (4, 10) };
    gen_raw(s, d, w, false)
}
/// sometimes shorter vectors than declared: the rest is zero
fn vals<G: Curve>(s: &mut Src, r: &Raw) -> (Vec<G::Fr>, Vec<G::Fr>) {
    let ni = if s.chance(1, 8) { s.below(r.half() + 1) } else { r.ni };
    let na = if s.chance(1, 8) { s.below(r.half() + 1) } else { r.na };
    (gen_vals(s, ni), gen_vals(s, na))
}
fn evaluate<G: Curve>(s: &mut Src) -> R {
    let r = shape(s);
    let (i, a) = vals::<G>(s, &r);
    let c = Circuit::new(r.ni, r.na, &r.layers);
    let got = c.evaluate::<G>(&i, &a).map_err(|e| Fail { sig: "evaluate-error".into(), msg: format!("{:?}", e) })?;
    let want = r.eval(&i, &a);
    ensure!(got == want, "evaluation", "layers differ from gate-by-gate evaluation");
    Ok(())
}
fn plain<G: Curve>(s: &mut Src) -> R {
    let r = shape(s);
    let (i, a) = vals::<G>(s, &r);
    let c = Circuit::new(r.ni, r.na, &r.layers);
    let h = c.circuit_to_hash::<G>();
    let (p, out) = LinearGKRProof::<G>::prover(&c, &i, &a, h);
    let want = r.eval(&i, &a);
    ensure!(&out == want.last().unwrap(), "outputs", "the prover's outputs are not the circuit's");
    ensure!(p.verify(&c, &out, &want[0], h), "plain-rejected", "an honest plain proof is refused");
    Ok(())
}
fn zk<G: Curve>(s: &mut Src) -> R {
    let r = shape(s);
    let (i, a) = vals::<G>(s, &r);
    let c = Circuit::new(r.ni, r.na, &r.layers);
    let mut rng = s.rng();
    let lg = r.half().trailing_zeros() as usize;
    let params = Parameters::<G>::new(&mut rng, lg + s.below(3));
    let (h, ph) = (c.circuit_to_hash::<G>(), params.param_to_hash());
    let (p, out) = ZKLinearGKRProof::<G>::prover(&params, &c, &i, &a, h, ph, &mut rng);
    ensure!(&out == r.eval(&i, &a).last().unwrap(), "outputs", "the prover's outputs are not the circuit's");
    // the verifier computes both digests itself
    let c2 = Circuit::new(r.ni, r.na, &r.layers);
    ensure!(p.verify(&params, &c2, &out, &i, c2.circuit_to_hash::<G>(), params.param_to_hash()), "zk-rejected", "an honest zero-knowledge proof is refused");
    Ok(())
}
/// a gate that names no node, or no operation, has no value
fn malformed<G: Curve>(s: &mut Src) -> R {
    let mut r = gen_raw(s, 4, 6, false);
    let (i, a): (Vec<G::Fr>, Vec<G::Fr>) = ((0..r.ni).map(|_| s.field()).collect(), (0..r.na).map(|_| s.field()).collect());
    let d = s.below(r.layers.len());
    let w = r.width(d);
    let g = s.below(r.layers[d].len());
    let far = w + if s.bool() { 0 } else { s.below(3 * w) };
    match s.below(3) {
        0 => r.layers[d][g].0 = *s.pick(&[2, 3, 4, 128, 255]),
        1 => r.layers[d][g].1 = far,
        _ => r.layers[d][g].2 = far,
    }
    s.nontrivial();
    if let Ok(Ok(_)) = quiet(|| Circuit::new(r.ni, r.na, &r.layers).evaluate::<G>(&i, &a)) {
        return fail("malformed", format!("layer {} gate {} {:?} over {} nodes has a value", d, g, r.layers[d][g], w));
    }
    Ok(())
}
type B = Bls12_381;
type C = Curve25519;
fn main() {
    vharness::main(
        "P14",
        "A case is a random layered circuit (depth, widths, wiring, unequal public and private parts) with random inputs; non-trivial = at least two gate layers and a multiplication.",
        vec![
            sub("evaluate-bls", 2000, 40000, evaluate::<B>),
            sub("evaluate-25519", 2000, 40000, evaluate::<C>),
            sub("plain-bls", 1500, 30000, plain::<B>),
            sub("plain-25519", 1500, 30000, plain::<C>),
            sub("malformed", 1500, 20000, malformed::<C>),
            sub("zk-bls", 250, 4000, zk::<B>),
            sub("zk-25519", 2000, 30000, zk::<C>),
        ],
    )
}
