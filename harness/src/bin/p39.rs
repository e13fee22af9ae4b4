//! P39: a circuit means the same in every constraint system, however it is written down.

use ark_bls12_381::Bls12_381;
use ark_ec::PairingEngine;
use std::marker::PhantomData;
use vharness::circ::*;
use vharness::schemes::{marlin::Marlin, spartan::*, Snark};
use vharness::tree::*;
use vharness::*;
use zkp_curve::Curve;

fn st<T, E: std::fmt::Debug>(r: Result<T, E>) -> Result<T, String> {
    r.map_err(|x| format!("{:?}", x))
}
struct Groth<E>(PhantomData<E>);
impl<E: PairingEngine> Snark for Groth<E> {
    type F = E::Fr;
    type K = zkp_groth16::Parameters<E>;
    const NAME: &'static str = "groth16";
    fn setup(c: &Circ<E::Fr>, rng: &mut TapeRng) -> Result<Self::K, String> {
        st(zkp_groth16::generate_random_parameters(c.blank(), rng))
    }
    fn prove(k: &Self::K, c: &Circ<E::Fr>, rng: &mut TapeRng) -> Result<Vec<u8>, String> {
        Ok(ser(&st(zkp_groth16::create_random_proof(k, c.clone(), rng))?))
    }
    fn verify(k: &Self::K, p: &[u8], x: &[E::Fr]) -> Result<bool, String> {
        st(zkp_groth16::verify_proof(&zkp_groth16::prepare_verifying_key(&k.vk), &de(p).ok_or("undecodable")?, x))
    }
    fn schema() -> &'static str {
        "{a:g,b:h,c:g}"
    }
    fn ops() -> Ops {
        ops2::<E::G1Affine, E::G2Affine>()
    }
}
/// the prover here also makes the generators; the matrices of another writing have to fit its proof
struct Bp<G>(PhantomData<G>);
impl<G: Curve> Snark for Bp<G> {
    type F = G::Fr;
    type K = Vec<u8>;
    const NAME: &'static str = "bulletproofs";
    fn setup(c: &Circ<G::Fr>, rng: &mut TapeRng) -> Result<Self::K, String> {
        let (_, r, _) = st(zkp_bulletproofs::create_random_proof::<G, _, _>(c.clone(), rng))?;
        Ok(ser(&r))
    }
    fn prove(_: &Self::K, c: &Circ<G::Fr>, rng: &mut TapeRng) -> Result<Vec<u8>, String> {
        let (g, _, p) = st(zkp_bulletproofs::create_random_proof::<G, _, _>(c.clone(), rng))?;
        let mut b = ser(&g);
        b.extend(ser(&p));
        Ok(b)
    }
    fn verify(k: &Self::K, p: &[u8], x: &[G::Fr]) -> Result<bool, String> {
        use ark_serialize::CanonicalDeserialize;
        let mut p = p;
        let g = st(CanonicalDeserialize::deserialize(&mut p))?;
        let q = st(CanonicalDeserialize::deserialize(&mut p))?;
        st(zkp_bulletproofs::verify_proof::<G>(&g, &q, &de(k).ok_or("undecodable")?, x))
    }
    fn schema() -> &'static str {
        ""
    }
    fn ops() -> Ops {
        ops::<G::Affine>()
    }
}

fn style(s: &mut Src) -> u64 {
    s.u64() | 1
}
/// keys of one writing, proof of another
fn rewritten<S: Snark>(s: &mut Src) -> R {
    let c: Circ<S::F> = gen_circ(s, &Opts { max_con: 8, max_aux: 6, ..Opts::default() });
    let (a, b) = (style(s), style(s));
    let (x, y) = match s.below(4) {
        0 => (a, 0),
        1 => (0, b),
        _ => (a, b),
    };
    s.label(if x == 0 { "plain keys" } else if y == 0 { "plain proof" } else { "both rewritten" });
    let w = |y: u64| {
        let mut d = c.clone();
        d.style = y;
        d
    };
    let mut rng = s.rng();
    let k = schemes::setup::<S>(&w(x), &mut rng)?;
    let p = schemes::prove::<S>(&k, &w(y), &mut rng)?;
    match S::verify(&k, &p, &c.pubs) {
        Ok(true) => {}
        r => return fail("rejected", format!("keys of writing {} and a proof of writing {} of one circuit do not fit: {:?}", x, y, r)),
    }
    if c.cons.is_empty() {
        return Ok(());
    }
    // one constraint less: nothing may hide it
    if let Some(mut v) = gen_violation(s, &c) {
        if v.auxs == c.auxs {
            return Ok(());
        }
        s.label("violated");
        v.style = y;
        if let Ok(Ok(p)) = quiet(|| S::prove(&k, &v, &mut rng)) {
            ensure!(!S::accepts(&k, &p, &v.pubs), "violating-accepted", "writing {} of a violating assignment is accepted under the keys of writing {}", y, x);
        }
    }
    Ok(())
}
/// an assignment that cannot be computed, or a synthesis that gives up, is an error and nothing else
fn failing<S: Snark>(s: &mut Src) -> R {
    let c: Circ<S::F> = gen_circ(s, &Opts { max_con: 6, max_aux: 5, ..Opts::default() });
    let mut rng = s.rng();
    let k = schemes::setup::<S>(&c, &mut rng)?;
    let mut d = c.clone();
    if s.bool() {
        d.style = style(s);
    }
    let vars: Vec<usize> = (0..c.steps.len()).filter(|i| !matches!(c.steps[*i], Step::Con(_))).collect();
    if !vars.is_empty() && s.bool() {
        s.label("missing value");
        d.missing = Some(*s.pick(&vars));
    } else {
        s.label("synthesis gives up");
        d.stop = Some(s.below(c.steps.len() + 1));
        match quiet(|| S::setup(&d, &mut rng)) {
            Ok(Err(_)) => {}
            Ok(Ok(_)) => return fail("setup-of-failed-synthesis", "keys for a circuit whose synthesis failed"),
            Err(m) => return fail("setup-panic", format!("key generation for a circuit whose synthesis fails panics: {}", m)),
        }
    }
    match quiet(|| S::prove(&k, &d, &mut rng)) {
        Ok(Err(_)) => Ok(()),
        Ok(Ok(_)) => fail("proof-of-failed-synthesis", "a proof although synthesis failed"),
        Err(m) => fail("prove-panic", format!("the prover panics where synthesis fails: {}", m)),
    }
}
fn main() {
    vharness::main(
        "P39",
        "A case is a random satisfied circuit and two ways to write it down (namespaces, borrowed and wrapped constraint systems, spellings of the combinations), with keys from one and a proof from the other, or a circuit whose synthesis fails; non-trivial = it has at least one non-empty constraint.",
        vec![
            sub("groth16", 900, 8000, rewritten::<Groth<Bls12_381>>),
            sub("marlin", 200, 1500, rewritten::<Marlin<Bls12_381>>),
            sub("bulletproofs", 250, 3000, rewritten::<Bp<Bls12_381>>),
            sub("nizk", 200, 2000, rewritten::<Nizk<Bls12_381>>),
            sub("snark", 60, 600, rewritten::<Sn<Bls12_381>>),
            sub("groth16-failing", 600, 4000, failing::<Groth<Bls12_381>>),
            sub("marlin-failing", 200, 1000, failing::<Marlin<Bls12_381>>),
            sub("bulletproofs-failing", 150, 1500, failing::<Bp<Bls12_381>>),
            sub("nizk-failing", 150, 1500, failing::<Nizk<Bls12_381>>),
            sub("snark-failing", 60, 600, failing::<Sn<Bls12_381>>),
        ],
    )
}
