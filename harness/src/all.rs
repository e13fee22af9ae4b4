//! Every proof system behind one interface: a statement with its keys, a prover and a verifier.
use crate::circ::*;
use crate::gkr::*;
use crate::tree::*;
use crate::*;
use ark_bls12_381::Bls12_381;
use ark_ec::PairingEngine;
use ark_serialize::CanonicalDeserialize;
use ark_ff::Zero;
use zkp_curve::Curve;

pub const BP: &str = "{A_I:g,A_O:g,A_W:g,S:g,T_2:g,T_3:g,T_5:g,T_6:g,T_7:g,T_8:g,T_9:g,T_10:g,mu:f,tau_x:f,l_x:[f],r_x:[f],t_x:f,IPP:{L:[g],R:[g],a:f,b:f},P:g}";
pub const GENS: &str = "{gv:[g],hv:[g],g:g,h:g,u:g,n:u,N:u,k:u,n_w:u}";
pub const ZKL: &str = "{comm_witness:[g],proofs:[{one:{cp:[g],ce:[g],pr:[{d:g,cd:g,z:[f],zd:f,zb:f}]},two:{cp:[g],ce:[g],pr:[{d:g,cd:g,z:[f],zd:f,zb:f}]},x:g,y:g,z:g,prod:{a:g,b:g,d:g,z:[f]},eq:{a:g,z:f}}],prod_proof0:{l:[g],r:[g],delta:g,beta:g,z1:f,z2:f},comm_y0:g,eq_proof0:{a:g,z:f},prod_proof1:{l:[g],r:[g],delta:g,beta:g,z1:f,z2:f},comm_y1:g,eq_proof1:{a:g,z:f}}";
pub const HYR: &str = "{comm_witness:[g],proofs:[{prod:{a:g,b:g,d:g,z:[f]},a0:g,c:g,x:g,y:g,z:g,comm_polys:[g],comm_evals:[g],comm_deltas:[g],z_vec:[f],z_delta_vec:[f],zc:f}],prod_proof0:{l:[g],r:[g],delta:g,beta:g,z1:f,z2:f},comm_y0:g,eq_proof0:{a:g,z:f},prod_proof1:{l:[g],r:[g],delta:g,beta:g,z1:f,z2:f},comm_y1:g,eq_proof1:{a:g,z:f}}";
pub const GROTH: &str = "{a:g,b:h,c:g}";

pub struct Job {
    pub name: &'static str,
    /// serialized keys and parameters
    pub keys: Vec<(&'static str, Vec<u8>)>,
    pub schema: &'static str,
    pub ops: Ops,
    pub cons: usize,
    /// the larger of constraints and private variables
    pub n: usize,
    /// the zero witness proves it, so that a proof of zeros is as good as any
    pub trivial: bool,
    pub prove: Box<dyn Fn(&mut TapeRng) -> Result<Vec<u8>, String>>,
    /// decode and verify against the true statement
    pub verify: Box<dyn Fn(&[u8]) -> Result<bool, String>>,
}
impl Job {
    pub fn proof(&self, rng: &mut TapeRng) -> Result<Vec<u8>, Fail> {
        (self.prove)(rng).map_err(|m| Fail { sig: "prove-error".into(), msg: m })
    }
    pub fn accepts(&self, b: &[u8]) -> bool {
        matches!(quiet(|| (self.verify)(b)), Ok(Ok(true)))
    }
}
fn e<T, E: std::fmt::Debug>(r: Result<T, E>) -> Result<T, String> {
    r.map_err(|x| format!("{:?}", x))
}
fn f<T, E: std::fmt::Debug>(r: Result<T, E>) -> Result<T, Fail> {
    r.map_err(|x| Fail { sig: "setup-error".into(), msg: format!("{:?}", x) })
}
/// as `deserialize`, with panics left to the caller
fn dec<T: CanonicalDeserialize>(b: &[u8]) -> Result<T, String> {
    T::deserialize(b).map_err(|x| format!("undecodable: {:?}", x))
}
/// sizes of the generated statements
#[derive(Clone, Copy)]
pub struct Size {
    pub cons: usize,
    pub aux: usize,
    pub depth: usize,
    pub width: usize,
    pub min_aux: usize,
    /// terms of a linear combination
    pub lc: usize,
}
pub const SMALL: Size = Size { cons: 6, aux: 6, depth: 3, width: 6, min_aux: 0, lc: 12 };
fn trivial<F: ark_ff::PrimeField>(c: &Circ<F>) -> bool {
    let mut z = c.clone();
    z.auxs.iter_mut().for_each(|a| *a = F::zero());
    z.cons.iter().all(|q| (z.eval(&q.0).is_zero() || z.eval(&q.1).is_zero()) && z.eval(&q.2).is_zero())
}
fn circ<F: ark_ff::PrimeField>(s: &mut Src, z: &Size) -> Circ<F> {
    gen_circ(s, &Opts { max_con: z.cons, max_aux: z.aux.max(z.min_aux), min_aux: z.min_aux, max_lc: z.lc, ..Opts::default() })
}
pub fn groth16(s: &mut Src, z: &Size) -> Result<Job, Fail> {
    groth16_over::<Bls12_381>(s, z)
}
pub fn groth16_over<E: PairingEngine>(s: &mut Src, z: &Size) -> Result<Job, Fail> {
    use zkp_groth16::*;
    let c: Circ<E::Fr> = circ(s, z);
    let mut rng = s.rng();
    let p = f(generate_random_parameters::<E, _, _>(c.blank(), &mut rng))?;
    let keys = vec![("parameters", ser(&p)), ("verifying key", ser(&p.vk))];
    let vk = p.vk.clone();
    let x = c.pubs.clone();
    Ok(Job {
        name: "groth16",
        keys,
        schema: GROTH,
        cons: c.cons.len(),
        n: c.cons.len().max(c.auxs.len()),
        trivial: trivial(&c),
        ops: ops2::<E::G1Affine, E::G2Affine>(),
        prove: Box::new(move |r| Ok(ser(&e(create_random_proof(&p, c.clone(), r))?))),
        verify: Box::new(move |b| e(verify_proof(&prepare_verifying_key(&vk), &dec::<Proof<E>>(b)?, &x))),
    })
}
pub fn marlin(s: &mut Src, z: &Size) -> Result<Job, Fail> {
    marlin_over::<Bls12_381>(s, z)
}
pub fn marlin_over<E: PairingEngine>(s: &mut Src, z: &Size) -> Result<Job, Fail> {
    use crate::schemes::{marlin::Marlin, Snark};
    let c: Circ<E::Fr> = circ(s, z);
    let mut rng = s.rng();
    let k = std::rc::Rc::new(crate::schemes::setup::<Marlin<E>>(&c, &mut rng)?);
    let keys = vec![("verifying key", ser(&k.vk))];
    let (k2, x) = (k.clone(), c.pubs.clone());
    Ok(Job {
        name: "marlin",
        keys,
        schema: Marlin::<E>::schema(),
        cons: c.cons.len(),
        n: c.cons.len().max(c.auxs.len()),
        trivial: trivial(&c),
        ops: Marlin::<E>::ops(),
        prove: Box::new(move |r| Marlin::<E>::prove(&k, &c, r)),
        verify: Box::new(move |b| e(zkp_marlin::verify_proof(&k2.vk, &dec(b)?, &x))),
    })
}
pub fn plonk(s: &mut Src, z: &Size) -> Result<Job, Fail> {
    use crate::plonk as pk;
    let p = pk::gen_prog(s, 1, 2 * z.cons + 2);
    let ks = pk::gen_ks(s);
    let k = std::rc::Rc::new(pk::keys(s, &p, ks)?);
    let keys = vec![("verifying key", ser(&k.1))];
    let k2 = k.clone();
    let x = p.build().public_inputs().to_vec();
    Ok(Job {
        name: "plonk",
        keys,
        schema: pk::PROOF,
        cons: 0,
        n: 0,
        trivial: false,
        ops: pk::proof_ops(),
        prove: Box::new(move |r| Ok(ser(&e(pk::Plonk::prove(&k.0, &p.build(), r))?))),
        verify: Box::new(move |b| e(pk::Plonk::verify(&k2.1, &x, dec::<pk::Proof>(b)?))),
    })
}
pub fn bulletproofs<G: Curve>(s: &mut Src, z: &Size) -> Result<Job, Fail> {
    use zkp_bulletproofs::*;
    let c: Circ<G::Fr> = circ(s, z);
    // this prover makes the generators and the matrices too
    let mut rng = s.rng();
    let (g, r, _) = f(create_random_proof::<G, _, _>(c.clone(), &mut rng))?;
    let keys = vec![("generators", ser(&g)), ("circuit", ser(&r))];
    let x = c.pubs.clone();
    let g = std::rc::Rc::new(g);
    let r = std::rc::Rc::new(r);
    let (g2, r2) = (g.clone(), r.clone());
    let a = {
        use ark_ff::One;
        let mut v = vec![G::Fr::one()];
        v.extend(c.pubs.iter());
        (
            c.cons.iter().map(|q| c.eval(&q.0)).collect::<Vec<_>>(),
            c.cons.iter().map(|q| c.eval(&q.1)).collect::<Vec<_>>(),
            c.cons.iter().map(|q| c.eval(&q.2)).collect::<Vec<_>>(),
            v,
            c.auxs.clone(),
        )
    };
    Ok(Job {
        name: "bulletproofs",
        keys,
        schema: BP,
        cons: c.cons.len(),
        n: c.cons.len().max(c.auxs.len()),
        trivial: trivial(&c),
        ops: ops::<G::Affine>(),
        prove: Box::new(move |rng| {
            let mut b = vec![];
            for v in [&a.0, &a.1, &a.2, &a.3, &a.4] {
                b.extend(ser(v));
            }
            let asg = dec::<zkp_bulletproofs::arithmetic_circuit::Assignment<G>>(&b)?;
            Ok(ser(&zkp_bulletproofs::arithmetic_circuit::prove(&g, &r, &asg, rng)))
        }),
        verify: Box::new(move |b| e(verify_proof(&g2, &dec::<Proof<G>>(b)?, &r2, &x))),
    })
}
pub fn nizk<G: Curve>(s: &mut Src, z: &Size) -> Result<Job, Fail> {
    use crate::schemes::{spartan::Nizk, Snark};
    use zkp_spartan::nizk;
    let c: Circ<G::Fr> = circ(s, z);
    let mut rng = s.rng();
    let k = std::rc::Rc::new(crate::schemes::setup::<Nizk<G>>(&c, &mut rng)?);
    let keys = vec![("proving key", ser(&k.pk)), ("verifying key", ser(&k.vk))];
    let (k2, x) = (k.clone(), c.pubs.clone());
    Ok(Job {
        name: "spartan-nizk",
        keys,
        schema: Nizk::<G>::schema(),
        cons: c.cons.len(),
        n: c.cons.len().max(c.auxs.len()),
        trivial: trivial(&c),
        ops: ops::<G::Affine>(),
        prove: Box::new(move |r| Nizk::<G>::prove(&k, &c, r)),
        verify: Box::new(move |b| e(nizk::verify_proof(&k2.vk, &dec(b)?, &x, k2.h.0, k2.h.1))),
    })
}
pub fn snark<G: Curve>(s: &mut Src, z: &Size) -> Result<Job, Fail> {
    use crate::schemes::{spartan::Sn, Snark};
    use zkp_spartan::snark;
    let c: Circ<G::Fr> = circ(s, z);
    let mut rng = s.rng();
    let k = std::rc::Rc::new(crate::schemes::setup::<Sn<G>>(&c, &mut rng)?);
    let keys = vec![("proving key", ser(&k.pk)), ("verifying key", ser(&k.vk))];
    let (k2, x) = (k.clone(), c.pubs.clone());
    Ok(Job {
        name: "spartan-snark",
        keys,
        schema: Sn::<G>::schema(),
        cons: c.cons.len(),
        n: c.cons.len().max(c.auxs.len()),
        trivial: trivial(&c),
        ops: ops::<G::Affine>(),
        prove: Box::new(move |r| Sn::<G>::prove(&k, &c, r)),
        verify: Box::new(move |b| e(snark::verify_proof(&k2.vk, &dec(b)?, &x, k2.h.0, k2.h.1, k2.h.2))),
    })
}
fn bits(n: usize) -> usize {
    n.next_power_of_two().trailing_zeros() as usize
}
fn layered(s: &mut Src, z: &Size) -> Raw {
    let mut r = gen_raw(s, z.depth, z.width, false);
    r.na = r.na.max(z.min_aux.min(r.half()));
    r
}
pub fn libra<G: Curve>(s: &mut Src, z: &Size) -> Result<Job, Fail> {
    use zkp_libra::circuit::Circuit;
    use zkp_libra::libra_zk_linear_gkr::*;
    use zkp_libra::params::*;
    let r = layered(s, z);
    let (i, a) = (gen_vals::<G::Fr>(s, r.ni), gen_vals(s, r.na));
    let mut rng = s.rng();
    let c = std::rc::Rc::new(Circuit::new(r.ni, r.na, &r.layers));
    let h = c.circuit_to_hash::<G>();
    let params = std::rc::Rc::new(Parameters::<G>::new(&mut rng, bits(r.half()) + 1));
    let ph = params.param_to_hash();
    let keys = vec![("parameters", ser(&*params))];
    let out = r.eval(&i, &a).pop().unwrap();
    let (c2, p2, i2) = (c.clone(), params.clone(), i.clone());
    Ok(Job {
        name: "libra",
        keys,
        schema: ZKL,
        cons: 0,
        n: 0,
        trivial: out.iter().all(|x| x.is_zero()),
        ops: ops::<G::Affine>(),
        prove: Box::new(move |rng| Ok(ser(&ZKLinearGKRProof::<G>::prover(&params, &c, &i, &a, h, ph, rng).0))),
        verify: Box::new(move |b| Ok(dec::<ZKLinearGKRProof<G>>(b)?.verify(&p2, &c2, &out, &i2, h, ph))),
    })
}
pub fn hyrax<G: Curve>(s: &mut Src, z: &Size) -> Result<Job, Fail> {
    use zkp_hyrax::circuit::Circuit;
    use zkp_hyrax::hyrax_proof::*;
    use zkp_hyrax::params::*;
    let r = layered(s, z);
    let log = s.range(0, 2);
    let n = 1usize << log;
    let ii: Vec<Vec<G::Fr>> = (0..n).map(|_| gen_vals(s, r.ni)).collect();
    let aa: Vec<Vec<G::Fr>> = (0..n).map(|_| gen_vals(s, r.na)).collect();
    let mut rng = s.rng();
    let c = std::rc::Rc::new(Circuit::new(r.ni, r.na, &r.layers));
    let h = c.circuit_to_hash::<G>();
    let params = std::rc::Rc::new(Parameters::<G>::new(&mut rng, bits(r.half()) + 1 + log));
    let ph = params.param_to_hash();
    let keys = vec![("parameters", ser(&*params))];
    let out: Vec<Vec<G::Fr>> = (0..n).map(|k| r.eval(&ii[k], &aa[k]).pop().unwrap()).collect();
    let (c2, p2, i2) = (c.clone(), params.clone(), ii.clone());
    Ok(Job {
        name: "hyrax",
        keys,
        schema: HYR,
        cons: 0,
        n: 0,
        trivial: out.iter().flatten().all(|x| x.is_zero()),
        ops: ops::<G::Affine>(),
        prove: Box::new(move |rng| Ok(ser(&HyraxProof::<G>::prover(&params, &aa, &ii, &c, h, ph, n, rng).0))),
        verify: Box::new(move |b| Ok(dec::<HyraxProof<G>>(b)?.verify(&p2, &out, &i2, &c2, h, ph))),
    })
}
