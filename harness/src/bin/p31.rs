//! P31: keys and proofs survive serialization.
use ark_bls12_381::{Bls12_381, Fr};
use ark_ff::{One, PrimeField, UniformRand};
use ark_poly::univariate::DensePolynomial;
use ark_poly::UVPolynomial;
use ark_serialize::{CanonicalDeserialize, CanonicalSerialize};
use vharness::circ::*;
use vharness::gkr::*;
use vharness::tree::*;
use vharness::*;
use zkp_curve::Curve;
use zkp_curve25519::Curve25519;

type B = Bls12_381;
type C = Curve25519;

fn take<T: CanonicalDeserialize>(what: &str, form: &str, b: &[u8], de: fn(&mut &[u8]) -> Result<T, ark_serialize::SerializationError>) -> Result<T, Fail> {
    let mut long = b.to_vec();
    long.extend_from_slice(&[0x5a; 9]);
    let mut r = &long[..];
    let t = match quiet(|| de(&mut r)) {
        Ok(Ok(t)) => t,
        Ok(Err(e)) => return fail("refused", format!("{} ({}): {:?}", what, form, e)),
        Err(p) => return fail("decode-panic", format!("{} ({}): {}", what, form, p)),
    };
    ensure!(r.len() == 9, "consumed", "{} ({}): {} bytes are read instead of {}", what, form, long.len() - r.len(), b.len());
    Ok(t)
}
/// through each form and back; returns what one of them restored
fn trip<T: CanonicalSerialize + CanonicalDeserialize>(s: &mut Src, what: &str, t: &T) -> Result<T, Fail> {
    let (mut c, mut u, mut n) = (vec![], vec![], vec![]);
    let ok = t.serialize(&mut c).is_ok() && t.serialize_uncompressed(&mut u).is_ok() && t.serialize_unchecked(&mut n).is_ok();
    ensure!(ok, "serialize", "{} is not serialized", what);
    ensure!(c.len() == t.serialized_size(), "size", "{}: {} bytes announced, {} written", what, t.serialized_size(), c.len());
    ensure!(u.len() == t.uncompressed_size(), "size-uncompressed", "{}: {} bytes announced, {} written", what, t.uncompressed_size(), u.len());
    let a = [
        take::<T>(what, "compressed", &c, |r| T::deserialize(r))?,
        take::<T>(what, "uncompressed", &u, |r| T::deserialize_uncompressed(r))?,
        take::<T>(what, "unchecked", &n, |r| T::deserialize_unchecked(r))?,
    ];
    for (x, form) in a.iter().zip(["compressed", "uncompressed", "unchecked"]) {
        let (mut c2, mut u2, mut n2) = (vec![], vec![], vec![]);
        let ok = x.serialize(&mut c2).is_ok() && x.serialize_uncompressed(&mut u2).is_ok() && x.serialize_unchecked(&mut n2).is_ok();
        ensure!(ok && c2 == c && u2 == u && n2 == n, "changed", "{} is another after the {} form", what, form);
        ensure!(x.serialized_size() == c.len() && x.uncompressed_size() == u.len(), "size-after", "{} has another size after the {} form", what, form);
    }
    let k = s.below(3);
    Ok(a.into_iter().nth(k).unwrap())
}
/// the same verdict whichever of key, proof or both were restored, on the true and on false statements
fn verdicts<K, P>(s: &mut Src, ks: [&K; 2], ps: [&P; 2], cases: usize, v: impl Fn(&K, &P, usize) -> Option<bool>) -> R {
    for i in 0..cases {
        let w = quiet(|| v(ks[0], ps[0], i)).ok().flatten();
        ensure!(i > 0 || w == Some(true), "rejected", "an honest proof is refused");
        for (a, b) in [(0, 1), (1, 0), (1, 1)] {
            let g = quiet(|| v(ks[a], ps[b], i)).ok().flatten();
            ensure!(g == w, "verdict", "statement {}: {:?} with restored {}, {:?} before", i, g, ["proof", "key", "key and proof"][if a == 0 { 0 } else { 1 + b }], w);
        }
        if w == Some(false) {
            s.label("false statement");
        }
    }
    s.nontrivial();
    Ok(())
}
fn e<T, E: std::fmt::Debug>(r: Result<T, E>) -> Result<T, Fail> {
    r.map_err(|x| Fail { sig: "make-error".into(), msg: format!("{:?}", x) })
}
fn circuit<F: PrimeField>(s: &mut Src) -> Circ<F> {
    let m = if s.thorough { 14 } else { 8 };
    gen_circ(s, &Opts { max_con: m, max_aux: m, max_pub: 5, ..Opts::default() })
}
/// the statement and some false ones
fn statements<F: PrimeField>(s: &mut Src, x: &[F]) -> Vec<Vec<F>> {
    let mut v = vec![x.to_vec()];
    if !x.is_empty() {
        let mut y = x.to_vec();
        let i = s.below(y.len());
        y[i] += F::one();
        v.push(y);
        v.push(x[1..].to_vec());
    }
    let mut y = x.to_vec();
    y.push(F::one());
    v.push(y);
    v
}
fn groth16(s: &mut Src) -> R {
    use zkp_groth16::*;
    let c: Circ<Fr> = circuit(s);
    let mut rng = s.rng();
    let p = e(generate_random_parameters::<B, _, _>(c.blank(), &mut rng))?;
    let q = trip(s, "parameters", &p)?;
    ensure!(p == q, "unequal", "parameters");
    let vk = trip(s, "verifying key", &p.vk)?;
    ensure!(p.vk == vk, "unequal", "verifying key");
    let a = e(create_random_proof(&p, c.clone(), &mut rng))?;
    let b = e(create_random_proof(&q, c.clone(), &mut rng))?;
    let (a2, b2) = (trip(s, "proof", &a)?, trip(s, "proof", &b)?);
    ensure!(a == a2 && b == b2, "unequal", "proof");
    let x = statements(s, &c.pubs);
    verdicts(s, [&p.vk, &vk], [&a, &a2], x.len(), |k, p, i| verify_proof(&prepare_verifying_key(k), p, &x[i]).ok())?;
    verdicts(s, [&p.vk, &q.vk], [&b, &b2], x.len(), |k, p, i| verify_proof(&prepare_verifying_key(k), p, &x[i]).ok())
}
fn marlin(s: &mut Src) -> R {
    use vharness::schemes::{marlin::Marlin, Snark};
    use zkp_marlin::*;
    let c: Circ<Fr> = circuit(s);
    let mut rng = s.rng();
    let k = vharness::schemes::setup::<Marlin<B>>(&c, &mut rng)?;
    let vk = trip(s, "verifying key", &k.vk)?;
    let p: Proof<B> = de(&e(Marlin::<B>::prove(&k, &c, &mut rng))?).unwrap();
    let q = trip(s, "proof", &p)?;
    let x = statements(s, &c.pubs);
    verdicts(s, [&k.vk, &vk], [&p, &q], x.len(), |k, p, i| verify_proof(k, p, &x[i]).ok())
}
fn marlin_pc(s: &mut Src) -> R {
    use zkp_marlin::verif_hooks::pc::*;
    let mut rng = s.rng();
    let max = s.range(1, 12);
    let sup = s.range(1, max);
    let pp = e(PC::<B>::setup(max, &mut rng))?;
    let (ck, vk) = e(PC::<B>::trim(&pp, sup))?;
    let (ck2, vk2) = (trip(s, "committer key", &ck)?, trip(s, "verifier key", &vk)?);
    let mut polys = vec![];
    for i in 0..s.range(1, 3) {
        let d = s.below(sup) + 1;
        let p = DensePolynomial::from_coefficients_vec((0..=d).map(|_| s.field()).collect());
        let db = if s.bool() { Some(s.range(d, sup)) } else { None };
        let hb = if s.bool() { Some(1) } else { None };
        let p = LabeledPolynomial::new_owned(format!("p{}", i), p, db, hb);
        let q = trip(s, "labeled polynomial", &p)?;
        ensure!(q.label() == p.label() && q.polynomial() == p.polynomial() && q.degree_bound() == p.degree_bound() && q.hiding_bound() == p.hiding_bound(), "unequal", "labeled polynomial");
        polys.push(p);
    }
    let seed = s.u64();
    let run = |ck: &CommitterKey<B>| PC::<B>::commit(ck, polys.iter(), Some(&mut TapeRng::new(seed)));
    let (a, b) = (quiet(|| run(&ck).map_err(|e| format!("{:?}", e))), quiet(|| run(&ck2).map_err(|e| format!("{:?}", e))));
    match (a, b) {
        (Ok(Ok(a)), Ok(Ok(b))) => {
            for (x, y) in a.0.iter().zip(&b.0) {
                ensure!(ser(x.commitment()) == ser(y.commitment()), "restored-key", "a restored committer key commits otherwise");
                let c = trip(s, "commitment", x.commitment())?;
                ensure!(ser(&c) == ser(x.commitment()), "unequal", "commitment");
            }
            s.nontrivial();
        }
        (a, b) => ensure!(a.is_ok() == b.is_ok() && matches!(a, Ok(Err(_))) == matches!(b, Ok(Err(_))), "restored-key", "a restored committer key fails otherwise"),
    }
    ensure!(ser(&vk) == ser(&vk2), "unequal", "verifier key");
    Ok(())
}
fn plonk(s: &mut Src) -> R {
    use vharness::plonk::*;
    let p = gen_prog(s, 1, 12);
    let ks = gen_ks(s);
    let (pk, vk) = keys(s, &p, ks)?;
    let vk2 = trip(s, "verifying key", &vk)?;
    let mut rng = s.rng();
    let a = e(Plonk::prove(&pk, &p.build(), &mut rng))?;
    let b = trip(s, "proof", &a)?;
    let (a, b) = (ser(&a), ser(&b));
    let c = p.build();
    let x = statements(s, c.public_inputs());
    verdicts(s, [&vk, &vk2], [&a, &b], x.len(), |k, p, i| Plonk::verify(k, &x[i], de::<Proof>(p)?).ok())
}
fn bullet<G: Curve>(s: &mut Src) -> R {
    use zkp_bulletproofs::arithmetic_circuit::{prove, Assignment};
    use zkp_bulletproofs::*;
    let c: Circ<G::Fr> = circuit(s);
    let mut rng = s.rng();
    let (g, r, p) = e(create_random_proof::<G, _, _>(c.clone(), &mut rng))?;
    let (g2, r2, p2) = (trip(s, "generators", &g)?, trip(s, "circuit", &r)?, trip(s, "proof", &p)?);
    // the command-line tool writes the three one after another
    let mut all = ser(&g);
    all.extend(ser(&r));
    all.extend(ser(&p));
    let t = take::<(Generators<G>, R1csCircuit<G>, Proof<G>)>("file", "compressed", &all, |r| CanonicalDeserialize::deserialize(r))?;
    let x = statements(s, &c.pubs);
    let v = |k: &(&Generators<G>, &R1csCircuit<G>), p: &Proof<G>, i: usize| verify_proof(k.0, p, k.1, &x[i]).ok();
    verdicts(s, [&(&g, &r), &(&g2, &r2)], [&p, &p2], x.len(), v)?;
    verdicts(s, [&(&g, &r2), &(&t.0, &t.1)], [&p, &t.2], x.len(), v)?;
    // the assignment, and a proof made from restored parts
    let mut b = vec![];
    for v in [c.cons.iter().map(|q| c.eval(&q.0)).collect::<Vec<_>>(), c.cons.iter().map(|q| c.eval(&q.1)).collect(), c.cons.iter().map(|q| c.eval(&q.2)).collect(), [vec![G::Fr::one()], c.pubs.clone()].concat(), c.auxs.clone()] {
        b.extend(ser(&v));
    }
    let a = take::<Assignment<G>>("assignment", "compressed", &b, |r| CanonicalDeserialize::deserialize(r))?;
    let a2 = trip(s, "assignment", &a)?;
    ensure!(ser(&a2) == b, "changed", "assignment");
    let p = prove(&g2, &r2, &a2, &mut rng);
    let p2 = trip(s, "proof", &p)?;
    verdicts(s, [&(&g, &r), &(&g2, &r2)], [&p, &p2], x.len(), v)
}
fn nizk<G: Curve>(s: &mut Src) -> R {
    use zkp_spartan::nizk::*;
    let c: Circ<G::Fr> = circuit(s);
    let mut rng = s.rng();
    let p = e(generate_random_parameters::<G, _, _>(c.blank(), &mut rng))?;
    let p2 = trip(s, "parameters", &p)?;
    let h = (p.r1cs.r1cs_to_hash(), p.params.param_to_hash());
    ensure!(h == (p2.r1cs.r1cs_to_hash(), p2.params.param_to_hash()), "digest", "restored parameters have another digest");
    let ((pk, vk), (pkb, vkb)) = (p.keypair(), p2.keypair());
    let (pk2, vk2) = (trip(s, "proving key", &pk)?, trip(s, "verifying key", &vk)?);
    ensure!(h == (vk2.r1cs.r1cs_to_hash(), vk2.params.param_to_hash()), "digest", "a restored key has another digest");
    let which = s.below(3);
    let pr = e(create_random_proof([&pk, &pk2, &pkb][which], c.clone(), h.0, h.1, &mut rng))?;
    let pr2 = trip(s, "proof", &pr)?;
    let x = statements(s, &c.pubs);
    verdicts(s, [&vk, &vk2], [&pr, &pr2], x.len(), |k, p, i| verify_proof(k, p, &x[i], h.0, h.1).ok())?;
    verdicts(s, [&vk, &vkb], [&pr, &pr2], x.len(), |k, p, i| verify_proof(k, p, &x[i], h.0, h.1).ok())
}
fn snark<G: Curve>(s: &mut Src) -> R {
    use zkp_spartan::snark::*;
    let c: Circ<G::Fr> = circuit(s);
    let mut rng = s.rng();
    let p = e(generate_random_parameters::<G, _, _>(c.blank(), &mut rng))?;
    let p2 = trip(s, "parameters", &p)?;
    let dg = |p: &Parameters<G>| (p.r1cs.r1cs_to_hash(), p.params.param_to_hash(), p.encode_comm.encode_to_hash());
    let h = dg(&p);
    ensure!(h == dg(&p2), "digest", "restored parameters have another digest");
    let ((pk, vk), (pkb, vkb)) = (p.keypair(), p2.keypair());
    let (pk2, vk2) = (trip(s, "proving key", &pk)?, trip(s, "verifying key", &vk)?);
    let which = s.below(3);
    let pr = e(create_random_proof([&pk, &pk2, &pkb][which], c.clone(), h.0, h.1, h.2, &mut rng))?;
    let pr2 = trip(s, "proof", &pr)?;
    let x = statements(s, &c.pubs);
    let n = 1 + s.below(x.len());
    verdicts(s, [&vk, &vk2], [&pr, &pr2], n, |k, p, i| verify_proof(k, p, &x[i], h.0, h.1, h.2).ok())?;
    verdicts(s, [&vk, &vkb], [&pr, &pr2], 1, |k, p, i| verify_proof(k, p, &x[i], h.0, h.1, h.2).ok())
}
fn bits(n: usize) -> usize {
    n.next_power_of_two().trailing_zeros() as usize
}
fn libra<G: Curve>(s: &mut Src) -> R {
    use zkp_libra::circuit::Circuit;
    use zkp_libra::libra_linear_gkr::*;
    use zkp_libra::libra_zk_linear_gkr::*;
    use zkp_libra::params::Parameters;
    let r = gen_raw(s, 3, 6, false);
    let (i, a) = (gen_vals::<G::Fr>(s, r.ni), gen_vals(s, r.na));
    let mut rng = s.rng();
    let c = Circuit::new(r.ni, r.na, &r.layers);
    let h = c.circuit_to_hash::<G>();
    let p = Parameters::<G>::new(&mut rng, bits(r.half()) + s.below(3));
    let p2 = trip(s, "parameters", &p)?;
    let ph = p.param_to_hash();
    ensure!(ph == p2.param_to_hash(), "digest", "restored parameters have another digest");
    let (pr, out) = ZKLinearGKRProof::<G>::prover(if s.bool() { &p } else { &p2 }, &c, &i, &a, h, ph, &mut rng);
    let pr2 = trip(s, "proof", &pr)?;
    let x = statements(s, &out);
    verdicts(s, [&p, &p2], [&pr, &pr2], x.len(), |k, p, j| Some(p.verify(k, &c, &x[j], &i, h, ph)))?;
    // the plain proof's parts
    let (pl, out) = LinearGKRProof::<G>::prover(&c, &i, &a, h);
    let mut v = vec![];
    for l in &pl.proofs {
        v.push(LayerProof { proof_phase_one: trip(s, "sum-check", &l.proof_phase_one)?, proof_phase_two: trip(s, "sum-check", &l.proof_phase_two)? });
    }
    let pl2 = LinearGKRProof { proofs: v };
    let inp = r.eval(&i, &a).remove(0);
    let x = statements(s, &out);
    verdicts(s, [&(), &()], [&pl, &pl2], x.len(), |_, p, j| Some(p.verify(&c, &x[j], &inp, h)))
}
fn hyrax<G: Curve>(s: &mut Src) -> R {
    use zkp_hyrax::circuit::Circuit;
    use zkp_hyrax::hyrax_proof::*;
    use zkp_hyrax::params::Parameters;
    let r = gen_raw(s, 3, 6, false);
    let log = s.below(3);
    let n = 1 << log;
    let ii: Vec<Vec<G::Fr>> = (0..n).map(|_| gen_vals(s, r.ni)).collect();
    let aa: Vec<Vec<G::Fr>> = (0..n).map(|_| gen_vals(s, r.na)).collect();
    let mut rng = s.rng();
    let c = Circuit::new(r.ni, r.na, &r.layers);
    let h = c.circuit_to_hash::<G>();
    let p = Parameters::<G>::new(&mut rng, bits(r.half()) + log + s.below(2));
    let p2 = trip(s, "parameters", &p)?;
    let ph = p.param_to_hash();
    ensure!(ph == p2.param_to_hash(), "digest", "restored parameters have another digest");
    let (pr, out) = HyraxProof::<G>::prover(if s.bool() { &p } else { &p2 }, &aa, &ii, &c, h, ph, n, &mut rng);
    let pr2 = trip(s, "proof", &pr)?;
    let mut outs = vec![out.clone()];
    let mut o = out.clone();
    let k = s.below(n);
    if let Some(l) = o[k].last_mut() {
        *l += G::Fr::one();
        outs.push(o);
    }
    verdicts(s, [&p, &p2], [&pr, &pr2], outs.len(), |k, p, j| Some(p.verify(k, &outs[j], &ii, &c, h, ph)))
}
/// what the above are made of
fn parts<G: Curve>(s: &mut Src) -> R {
    let mut rng = s.rng();
    let x: G::Fr = s.field();
    ensure!(trip(s, "scalar", &x)? == x, "unequal", "scalar {}", x);
    let k = s.below(4);
    let p: G::Affine = match k {
        0 => G::Affine::default(),
        1 => zkp_curve::AffineCurve::prime_subgroup_generator(),
        _ => zkp_curve::ProjectiveCurve::into_affine(&G::Projective::rand(&mut rng)),
    };
    ensure!(trip(s, "point", &p)? == p, "unequal", "point {}", p);
    let v: Vec<G::Affine> = (0..s.below(4)).map(|i| if i == 1 { G::Affine::default() } else { p }).collect();
    ensure!(trip(s, "points", &v)? == v, "unequal", "points");
    s.nontrivial();
    Ok(())
}
fn index(s: &mut Src) -> R {
    use zkp_r1cs::Index;
    let n = match s.below(3) {
        0 => s.below(4),
        1 => usize::MAX - s.below(3),
        _ => s.u64() as usize,
    };
    let i = if s.bool() { Index::Input(n) } else { Index::Aux(n) };
    ensure!(trip(s, "index", &i)? == i, "unequal", "{:?}", i);
    s.nontrivial();
    Ok(())
}
fn main() {
    vharness::main(
        "P31",
        "A case is a random statement with keys and a proof, each written and restored in every form; non-trivial = verdicts were compared (parts: a value was restored).",
        vec![
            sub("groth16", 150, 4000, groth16),
            sub("marlin", 60, 1500, marlin),
            sub("marlin-pc", 150, 4000, marlin_pc),
            sub("plonk", 80, 2000, plonk),
            sub("bulletproofs", 40, 1000, bullet::<B>),
            sub("bulletproofs-25519", 150, 3000, bullet::<C>),
            sub("spartan-nizk", 25, 500, nizk::<B>),
            sub("spartan-nizk-25519", 100, 2000, nizk::<C>),
            sub("spartan-snark", 8, 200, snark::<B>),
            sub("spartan-snark-25519", 40, 800, snark::<C>),
            sub("libra", 30, 600, libra::<B>),
            sub("libra-25519", 150, 3000, libra::<C>),
            sub("hyrax", 30, 600, hyrax::<B>),
            sub("hyrax-25519", 150, 3000, hyrax::<C>),
            sub("parts", 600, 20000, parts::<B>),
            sub("parts-25519", 2000, 60000, parts::<C>),
            sub("index", 2000, 20000, index),
        ],
    )
}
